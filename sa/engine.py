"""A structured abstract interpreter over the extracted program.

Domain: every local variable is mapped to a *value term* (a value-numbering of the expression that
defined it, in terms of parameters, `this`, constants, fields and opaque calls), plus a set of facts
(conditions known to hold on the path).  States are kept disjunctive up to a bound and joined beyond
it (differing terms become `phi`, facts are intersected).  Loops are walked once with every variable
they assign havocked.  Calls to project functions selected by the policy are inlined, so a helper
that is extracted, a statement that is moved or a local that is introduced does not change what the
rules see.  No solver is involved: a branch is only dropped when its condition is a constant or the
very same fact is already known.

Terms (tuples):
  ('this',) ('param', name, idx) ('const', v) ('enum', qualified) ('str', s) ('null',)
  ('field', base, name) ('call', qualifiedName, obj|None, args, targs) ('ctor', cls, args)
  ('index', base, idx) ('iv', depth, start) ('bin', op, a, b) ('un', op, a) ('cond', ...)
  ('phi', frozenset) ('unk', n) ('vec', items) with ('each', term, src) items, ('dyn', T, x) ('isa', T, x)
  ('lambda', id) ('tuple', items) ('gvar', name)
"""
import sys
from .facts import walk, AnalysisBroken, count_params
from . import algo

sys.setrecursionlimit(20000)

IDENT_CALLS = {
    'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::addressof',
    'std::static_pointer_cast', 'std::const_pointer_cast', 'std::__addressof', 'std::to_address',
}
PTR_CLASSES = ('std::unique_ptr<', 'std::shared_ptr<', 'std::__shared_ptr', 'std::__uniq_ptr',
               'std::optional<', 'std::reference_wrapper<', 'std::__shared_ptr_access<',
               'std::_Optional_base', 'std::weak_ptr<')
PTR_METHODS = {'get', 'operator->', 'operator*', 'release', 'value', 'operator bool', 'has_value',
               'lock'}


def core(t):
    """strip dynamic casts"""
    while t and t[0] == 'dyn':
        t = t[2]
    return t


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple:
            if x and type(x[0]) is str:
                yield x
            st.extend(x)
        elif type(x) is frozenset:
            st.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def alts(t):
    """alternatives of a phi"""
    if t[0] == 'phi':
        out = []
        for x in t[1]:
            out += alts(x)
        return out
    return [t]


def mkphi(ts):
    s = set()
    for t in ts:
        s.update(alts(t))
    if len(s) == 1:
        return next(iter(s))
    return ('phi', frozenset(s))


class State:
    __slots__ = ('env', 'facts', 'user')

    def __init__(self, env=None, facts=frozenset(), user=frozenset()):
        self.env, self.facts, self.user = env or {}, facts, user

    def fork(self):
        return State(dict(self.env), self.facts, self.user)

    def with_facts(self, fs):
        s = State(dict(self.env), self.facts | frozenset(fs), self.user)
        return s


class Event:
    __slots__ = ('kind', 'decl', 'q', 'name', 'obj', 'args', 'line', 'file', 'facts', 'loops',
                 'stack', 'result', 'func', 'user', 'node')

    def __repr__(self):
        return '<%s %s obj=%s args=%s @%s:%s>' % (self.kind, self.q, self.obj, self.args, self.file,
                                                  self.line)


class Frame:
    def __init__(self, func, fid, obj, depth, parent):
        self.func, self.fid, self.obj, self.depth, self.parent = func, fid, obj, depth, parent
        self.lambdas = {}


class Interp:
    CAP = 24
    MAXDEPTH = 8
    RECURSION = 0

    def __init__(self, program, inline=None, on_event=None, join_user=None, opaque=(), dyn=None,
                 want_states=False, track_fields=False, min_one=False, hook=None, truthy=(), unroll=0,
                 truth_hook=None, range_hook=None, recs=False, ctorhook=None, conc=False):
        self.conc = conc or recs  # literal vectors are followed element by element
        self.recs = recs          # aggregates are records, iterators over literal vectors are positions
        self.range_of = None      # callback: (interp, range term, state, frame) -> literal range | None
        self.ctorfields = None    # callback: ctor term -> {field: value} | None
        self.ctorhook = ctorhook  # callback: (interp, cls, args, state, frame) -> (term, state) | None
        self.hook = hook          # callback: (interp, decl, obj, args, state, frame, node) -> [(term, state)] | None
        self.unroll = unroll      # loops whose condition stays decidable are followed up to this many rounds
        self.truth_hook = truth_hook
        self.range_hook = range_hook
        self.truthy = set(truthy) # heads of terms that are non-null pointers
        self.fndecls = {}
        self.min_one = min_one    # forall-loops: consider only executions with an iteration
        self.P = program
        self.policy = inline
        self.on_event = on_event
        self.join_user = join_user or (lambda a, b: a & b)
        self.opaque = set(opaque)
        self.events = []
        self.nfid = 0
        self.loopdepth = 0
        self.unk = 0
        self.dyn = dyn            # callback: (decl, objterm) -> override Decl for a virtual call
        self.closures = {}
        self.budget = 400000
        self.inlined = set()
        self.track_fields = track_fields
        self.lines = []

    # ------------------------------------------------------------------ entry
    def run(self, func, args=None, this=('this',), facts=frozenset(), user=frozenset(), env=None):
        """interprets func; returns list of (kind, term, state) exits; kind 'ret' or 'end' or 'throw'"""
        fr = self.new_frame(func, this, None)
        st = State(dict(env or {}), facts, user)
        for i, p in enumerate(func.params):
            t = ('param', p[1] or '#%d' % i, i)
            if args is not None and i < len(args) and args[i] is not None:
                t = args[i]
            st.env[(fr.fid, p[0])] = t
        return self.run_frame(fr, st)

    def new_frame(self, func, obj, parent):
        self.nfid += 1
        return Frame(func, self.nfid, obj, (parent.depth + 1) if parent else 0, parent)

    def run_frame(self, fr, st):
        exits = []
        states = [st]
        if fr.func.inits:
            for i in fr.func.inits:
                nst = []
                for s in states:
                    if i[0] in ('b', 'd') and i[2] and i[2][0] == 'ctor':
                        nst += self.base_init(i[2], s, fr)
                        continue
                    for t, s2 in self.ev(i[2], s, fr):
                        s2 = self.emit('init', None, fr.obj, (t,), 0, s2, fr, name=i[1], q=i[0])
                        if i[0] == 'f':
                            s2 = s2.fork()
                            s2.env[('F', fr.obj, i[1])] = t
                        nst.append(s2)
                states = self.limit(nst, fr)
        flow = self.block([fr.func.body], states, fr)
        for t, s in flow['ret']:
            exits.append(('ret', t, s))
        for s in flow['throw']:
            exits.append(('throw', None, s))
        for s in flow['norm']:
            exits.append(('end', None, s))
        return exits

    def base_init(self, e, s, fr):
        decl, cls, args, line = e[1], e[2], e[3], e[4]
        out = []
        for ts, s1 in self.evlist(args, s, fr):
            s1 = self.emit('baseinit', decl, fr.obj, ts, line, s1, fr, name=cls, q=cls)
            f = self.P.body_of(decl)
            if f is None or f.dependent or decl.copy or fr.depth >= self.MAXDEPTH:
                out.append(s1)
                continue
            for _, s2 in self.inline(f, decl, fr.obj, ts, s1, fr, e):
                out.append(s2)
        return out

    # ------------------------------------------------------------------ joins
    def join(self, a, b):
        if a is b:
            return a
        env = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                # variable out of scope on one side, or undefined field overlay
                if k[0] == 'F':
                    env[k] = mkphi([v, ('field', k[1], k[2])])
                continue
            env[k] = v if v == w else mkphi([v, w])
        for k, w in b.env.items():
            if k[0] == 'F' and k not in a.env:
                env[k] = mkphi([w, ('field', k[1], k[2])])
        return State(env, a.facts & b.facts, self.join_user(a.user, b.user)
                     if a.user != b.user else a.user)

    def limit(self, states, fr=None, cap=None):
        cap = cap or self.CAP
        if len(states) <= 1:
            return states
        # merge duplicates
        out = []
        seen = {}
        for s in states:
            k = (s.facts, s.user, frozenset((a, b) for a, b in s.env.items()))
            if k not in seen:
                seen[k] = 1
                out.append(s)
        if len(out) <= cap:
            return out
        # join states with equal user part first
        groups = {}
        for s in out:
            groups.setdefault(s.user, []).append(s)
        res = []
        for g in groups.values():
            j = g[0]
            for s in g[1:]:
                j = self.join(j, s)
            res.append(j)
        if len(res) <= cap:
            return res
        j = res[0]
        for s in res[1:]:
            j = self.join(j, s)
        return [j]

    # ------------------------------------------------------------------ statements
    def flow(self, norm=()):
        return {'norm': list(norm), 'brk': [], 'cont': [], 'ret': [], 'throw': []}

    def merge(self, f, g, norm=False):
        for k in ('brk', 'cont', 'ret', 'throw'):
            f[k] += g[k]
        if norm:
            f['norm'] += g['norm']

    def block(self, stmts, states, fr):
        f = self.flow(states)
        for s in stmts:
            if not f['norm']:
                break
            g = self.stmt(s, f['norm'], fr)
            f['norm'] = self.limit(g['norm'], fr)
            self.merge(f, g)
        return f

    def stmt(self, n, states, fr):
        if not n:
            return self.flow(states)
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisBroken('analysis budget exhausted in %s' % fr.func.q)
        k = n[0]
        m = getattr(self, 's_' + k, None)
        if m is None:
            # an expression in statement position (e.g. body of if)
            return self.s_expr(['expr', 0, n], states, fr)
        return m(n, states, fr)

    def s_block(self, n, states, fr):
        return self.block(n[1], states, fr)

    def s_decls(self, n, states, fr):
        for d in n[1]:
            states = self.declare(d, states, fr)
        return self.flow(states)

    def declare(self, d, states, fr):
        out = []
        vid, name, ty, init = d[1], d[2], d[3], d[4]
        for s in states:
            if not init:
                s2 = s.fork()
                s2.env[(fr.fid, vid)] = self.default_value(ty)
                out.append(s2)
                continue
            # reference bound to a local: alias
            for t, s1 in self.ev(init, s, fr, wanttype=ty):
                s2 = s1.fork()
                if ty.endswith('&') and not ty.startswith('const ') and init[0] == 'var':
                    tgt = self.varkey(init, s2, fr)
                    s2.env[(fr.fid, vid)] = ('alias', tgt)
                else:
                    if t[0] == 'ctor' and t[1].startswith('std::vector<') and not t[2]:
                        t = ('vec', ())
                    s2.env[(fr.fid, vid)] = t
                    if len(d) > 6 and d[6] == 'static' and (map_literal(t) is not None
                                                             or self.conc and ty.startswith('const ')):
                        s2.env[(fr.fid, 'static', name)] = t
                out.append(s2)
        return self.limit(out, fr)

    def default_value(self, ty):
        if ty.startswith('std::vector<'):
            return ('vec', ())
        if self.recs and ty in self.P.classes and ty.startswith('jlm::') and self.is_aggregate(ty):
            return ('rec', ty, tuple((f[0], self.default_value(f[1])) for f in self.P.classes[ty].fields))
        self.unk += 1
        return ('uninit', ty)

    def s_expr(self, n, states, fr):
        f = self.flow()
        for s in states:
            e = n[2]
            if e and e[0] == 'throw':
                for t, s1 in self.ev(e[1], s, fr) if e[1] else [(None, s)]:
                    f['throw'].append(s1)
                continue
            for t, s1 in self.ev(e, s, fr):
                if t == ('noreturn',):
                    f['throw'].append(s1)
                else:
                    f['norm'].append(s1)
        return f

    def s_if(self, n, states, fr):
        _, line, init, cv, c, th, el = n
        f = self.flow()
        if init:
            g = self.stmt(init, states, fr)
            states = g['norm']
        if cv:
            states = self.declare(cv, states, fr)
        ts, fs = [], []
        for s in states:
            a, b = self.cond(c, s, fr)
            ts += a
            fs += b
        g = self.stmt(th, self.limit(ts, fr), fr) if ts else self.flow()
        f['norm'] += g['norm']
        self.merge(f, g)
        if fs:
            if el:
                g = self.stmt(el, self.limit(fs, fr), fr)
                f['norm'] += g['norm']
                self.merge(f, g)
            else:
                f['norm'] += fs
        return f

    def assigned(self, n, fr):
        """variables assigned anywhere in n"""
        out = set()
        for x in walk(n):
            if x[0] == 'asg':
                t = x[2]
                while t and t[0] in ('idx', 'mem') and type(t[1]) is list:
                    t = t[1]
                if t and t[0] == 'var':
                    out.add(t[1])
            elif x[0] == 'un' and x[1] in ('++', '--', 'p++', 'p--'):
                if x[2] and x[2][0] == 'var':
                    out.add(x[2][1])
            elif x[0] == 'call' and x[2] and x[2][0] == 'var':
                nm = x[1].name
                if (x[1].cls or '').startswith('jlm::') and not nm.startswith('operator'):
                    continue
                if nm in ('operator=', 'operator++', 'operator--', 'operator+=', 'push_back', 'emplace_back',
                          'insert', 'resize', 'clear', 'pop_back', 'erase', 'emplace'):
                    out.add(x[2][1])
        return out

    def havoc(self, states, n, fr, startterms=True):
        vs = self.assigned(n, fr)
        out = []
        for s in states:
            s2 = s.fork()
            dead = set()
            for v in vs:
                k = self.resolve_key((fr.fid, v), s2)
                # variables of enclosing frames (lambdas) share the frame id
                if k in s2.env:
                    old = s2.env[k]
                    if old[0] == 'vec':
                        continue   # appended items become `each`
                    if old[0] == 'uninit':
                        start = old
                    else:
                        start = old
                    new = ('iv', self.loopdepth, start if start[0] in ('const', 'iv') else None, v)
                    s2.env[k] = new
                    dead.add(old)
            # field overlays written in the loop
            for x in walk(n):
                if x[0] == 'asg' and x[2] and x[2][0] == 'mem':
                    for k in [k for k in s2.env if k[0] == 'F' and k[2] == x[2][2]]:
                        s2.env[k] = ('unk', 'loopfield', k[2])
            out.append(s2)
        return out

    def steppers(self, n):
        """variables whose only assignment in n is one ++"""
        c = {}
        for x in walk(n):
            if x[0] == 'asg':
                t = x[2]
                while t and t[0] in ('idx', 'mem') and type(t[1]) is list:
                    t = t[1]
                if t and t[0] == 'var':
                    c[t[1]] = c.get(t[1], 0) + 2
            elif x[0] == 'un' and x[1] in ('++', '--', 'p++', 'p--') and x[2] and x[2][0] == 'var':
                c[x[2][1]] = c.get(x[2][1], 0) + (1 if '+' in x[1] else 2)
            elif x[0] == 'call' and x[2] and x[2][0] == 'var':
                c[x[2][1]] = c.get(x[2][1], 0) + 2
        return {v for v, k in c.items() if k == 1}

    def sticky(self, states, st, fr, n, body, cond, inc):
        """flags that, once changed from their value before the loop, keep the other value: (key, value) pairs.  Decided by
        interpreting the body once more with the other value"""
        res = set()
        if len(states) != len(st):
            return res
        for s0, s1 in zip(states, st):
            for v in self.assigned(n, fr):
                k = self.resolve_key((fr.fid, v), s1)
                old = s0.env.get(k)
                if old is None or old[0] != 'const' or type(old[1]) is not bool or s1.env.get(k, ('',))[0] != 'iv':
                    continue
                s2 = s1.fork()
                s2.env[k] = ('const', not old[1])
                saved, oe = self.events, self.on_event
                self.events, self.on_event = [], None
                try:
                    cur = self.cond(cond, s2, fr)[0] if cond else [s2]
                    g = self.stmt(body, self.limit(cur, fr), fr) if cur else self.flow()
                    end = g['norm'] + g['cont']
                    if inc:
                        end = [x for e in end for _, x in self.ev(inc, e, fr)]
                finally:
                    self.events, self.on_event = saved, oe
                if all(x.env.get(k) == ('const', not old[1]) for x in end + g['brk']):
                    res.add((k, old))
                else:
                    res.discard((k, old))
        return res

    @staticmethod
    def keep_flags(before, after, flags):
        if not flags or len(before) != len(after):
            return after
        out = []
        for a, b in zip(before, after):
            b = b.fork()
            for k, _ in flags:
                if k in a.env:
                    b.env[k] = a.env[k]
            out.append(b)
        return out

    def counted_out(self, exits, n, cond, fr):
        """a counter that only steps by one up to a bound equals the bound when the loop is left through its condition"""
        if not cond or cond[0] != 'bin' or cond[1] not in ('<', '!=') or not cond[2] or cond[2][0] != 'var':
            return exits
        v = cond[2][1]
        if v not in self.steppers(n) or any(x[0] == 'var' and x[1] in self.assigned(n, fr) for x in walk(cond[3])):
            return exits
        out = []
        for s in exits:
            k = self.resolve_key((fr.fid, v), s)
            i = s.env.get(k)
            if i is not None and i[0] in ('iv', 'const') and (i[0] == 'const' or i[2] is not None) and \
                    (i if i[0] == 'const' else i[2]) == ('const', 0):
                saved, oe = self.events, self.on_event
                self.events, self.on_event = [], None
                b = self.ev(cond[3], s, fr)
                self.events, self.on_event = saved, oe
                if len(b) == 1 and b[0][0][0] != 'const':
                    s = s.fork()
                    s.env[k] = b[0][0]
            out.append(s)
        return out

    def loop(self, f, states, fr, body, cond=None, inc=None, condvar=None, dowhile=False, n=None):
        """one abstract iteration; result: exit states"""
        pre = states
        self.loopdepth += 1
        st = self.havoc(states, n, fr)
        flags = self.sticky(states, st, fr, n, body, cond, inc) if not condvar and not dowhile else ()
        st = self.keep_flags(states, st, flags)
        exits = []
        if condvar:
            st = self.declare(condvar, st, fr)
        if cond and not dowhile:
            ts = []
            for s in st:
                a, b = self.cond(cond, s, fr)
                ts += a
                exits += b
            st = self.limit(ts, fr)
        elif not cond and not dowhile:
            pass
        g = self.stmt(body, st, fr) if st else self.flow()
        end = self.limit(g['norm'] + g['cont'], fr)
        if self.min_one and (end or g['brk'] or g['ret']):
            exits = []
        if inc:
            e2 = []
            for s in end:
                e2 += [x for _, x in self.ev(inc, s, fr)]
            end = e2
        if dowhile:
            for s in end:
                a, b = self.cond(cond, s, fr)
                exits += b
                # facts about loop-varying state do not survive, keep the exit
        else:
            # leaving after >= 1 iteration: back through the condition
            if end:
                end2 = self.keep_flags(end, self.havoc(end, n, fr), flags)
                if cond:
                    for s in end2:
                        saved = self.events
                        self.events = []
                        oe, self.on_event = self.on_event, None
                        a, b = self.cond(cond, s, fr) if not condvar else ([], [s])
                        if not b and not condvar and self.truth(('bin', 'true'), s) is None:
                            # the entry fact about the loop condition does not bind the last test
                            b = [] if cond[0] in ('bool', 'int') else [s]
                        self.on_event = oe
                        self.events = saved
                        exits += b
                # `while(true)`-like: only breaks leave
        self.loopdepth -= 1
        f['ret'] += g['ret']
        f['throw'] += g['throw']
        f['norm'] += self.limit(self.counted_out(exits, n, cond, fr) + g['brk'], fr)
        return f

    def s_for(self, n, states, fr):
        _, line, init, cv, c, inc, body = n
        if init:
            states = self.stmt(init, states, fr)['norm']
        return self.loop_or_unroll(states, fr, body, c, inc, cv, n=['x', [c, inc, body]])

    def s_while(self, n, states, fr):
        _, line, cv, c, body = n
        return self.loop_or_unroll(states, fr, body, c, None, cv, n=['x', [c, body]])

    def loop_or_unroll(self, states, fr, body, cond, inc, condvar, n):
        if not self.unroll or not cond or condvar:
            return self.loop(self.flow(), states, fr, body, cond, inc, condvar, n=n)
        f = self.flow()
        abstract = []
        cur = list(states)
        for k in range(self.unroll + 1):
            nxt = []
            for s in cur:
                ne = len(self.events)
                ts, fs = self.cond(cond, s, fr)
                if (ts and fs) or k == self.unroll:
                    del self.events[ne:]
                    abstract.append(s)
                    continue
                f['norm'] += fs
                nxt += ts
            if not nxt:
                break
            g = self.stmt(body, self.limit(nxt, fr), fr)
            f['ret'] += g['ret']
            f['throw'] += g['throw']
            f['norm'] += g['brk']
            cur = self.limit(g['norm'] + g['cont'], fr)
            if inc:
                e2 = []
                for s in cur:
                    e2 += [x for _, x in self.ev(inc, s, fr)]
                cur = e2
        if abstract:
            g = self.loop(self.flow(), abstract, fr, body, cond, inc, condvar, n=n)
            self.merge(f, g, True)
        f['norm'] = self.limit(f['norm'], fr)
        return f

    def s_do(self, n, states, fr):
        _, line, body, c = n
        return self.loop(self.flow(), states, fr, body, c, None, None, True, n=['x', [c, body]])

    def s_rfor(self, n, states, fr):
        var, rng, body, init = n[2], n[3], n[4], n[5]
        if init:
            states = self.stmt(init, states, fr)['norm']
        f = self.flow()
        st = []
        for s in states:
            st += self.ev(rng, s, fr)
        if self.range_hook is not None:
            st = [(self.range_hook(t) or t, s) for t, s in st]
        if self.range_of is not None:
            st = [(self.range_of(self, t, s, fr) or t, s) for t, s in st]
        if self.conc:
            st = [(('vec', t[2][::-1]) if t[0] == 'ctor' and t[1].startswith(SETS) and all(map(ground, t[2])) else t, s) for t, s in st]
        if self.unroll:
            rest = []
            for t, s in st:
                if t[0] == 'vec' and len(t[1]) <= self.unroll and all(x[0] != 'each' for x in t[1]):
                    cur = [s]
                    byref = var[3].endswith('&') and not var[3].startswith('const ') and rng[0] in ('var', 'mem')
                    for i, x in enumerate(t[1]):
                        nxt = []
                        for s1 in cur:
                            s2 = s1.fork()
                            s2.env[(fr.fid, var[1])] = x
                            nxt.append(s2)
                        g = self.stmt(body, nxt, fr)
                        if byref:
                            for kind in g:
                                g[kind] = [self.write_back(y, rng, var, i, x, fr) for y in g[kind]]
                        f['ret'] += g['ret']
                        f['throw'] += g['throw']
                        f['norm'] += g['brk']
                        cur = self.limit(g['norm'] + g['cont'], fr)
                    f['norm'] += cur
                else:
                    rest.append((t, s))
            st = rest
            if not st:
                f['norm'] = self.limit(f['norm'], fr)
                return f
        self.loopdepth += 1
        entry, zero, flags, inductive = [], [], None, ()
        if body and body[0] == 'block' and not any(x[0] == 'continue' for x in walk(body)):
            tops = [x[2] if x[0] == 'expr' else x for x in body[1] if x]
            inductive = [v for v in self.steppers(['x', [body]])
                         if any(x and x[0] == 'un' and x[2] and x[2][:2] == ['var', v] for x in tops)]
        for t, s in st:
            if t[0] == 'vec' and not t[1]:
                zero.append(s)
                continue
            s2 = self.havoc([s], ['x', [body]], fr)[0]
            fl = self.sticky([s], [s2], fr, ['x', [body]], body, None, None)
            s2 = self.keep_flags([s], [s2], fl)[0]
            flags = fl if flags is None else flags & fl
            iv = ('iv', self.loopdepth, ('const', 0), var[1])
            el = self.element(t, iv)
            s2 = s2.fork()
            for v in inductive:
                k = self.resolve_key((fr.fid, v), s2)
                if s2.env.get(k, ('',))[0] == 'iv' and s2.env[k][2] == ('const', 0):
                    s2.env[k] = iv
            s2.env[(fr.fid, var[1])] = el
            if len(var) > 6 and var[6] == 'decomp':
                pass
            entry.append(s2)
            zero.append(s)
        g = self.stmt(body, self.limit(entry, fr), fr) if entry else self.flow()
        end = g['norm'] + g['cont']
        if self.min_one and entry:
            zero = []
        end = self.keep_flags(end, self.havoc(end, ['x', [body]], fr), flags)
        self.loopdepth -= 1
        f['ret'] += g['ret']
        f['throw'] += g['throw']
        f['norm'] += self.limit(zero + end + g['brk'], fr)
        return f

    def write_back(self, y, rng, var, i, x, fr):
        """the i-th element of a container after an iteration over its elements by reference"""
        s = y[1] if type(y) is tuple else y
        new = s.env.get((fr.fid, var[1]), x)
        if new == x or new[0] == 'alias':
            return y
        cs = self.ev(rng, s, fr)
        if len(cs) != 1 or cs[0][0][0] != 'vec' or i >= len(cs[0][0][1]):
            return y
        c = cs[0][0][1]
        s2 = self.lvalue(rng, ('vec', c[:i] + (new,) + c[i + 1:]), s, fr)
        return y if s2 is None else (y[0], s2) + y[2:] if type(y) is tuple else s2

    def element(self, t, iv):
        if t[0] == 'vec':
            items = []
            for i in t[1]:
                items.append(i[1] if i[0] == 'each' else i)
            if len(items) == 1:
                return items[0]
            return mkphi(items) if items else ('unk', 'empty')
        if t[0] == 'phi':
            return mkphi([self.element(x, iv) for x in t[1]])
        return ('index', t, iv)

    def s_switch(self, n, states, fr):
        _, line, cv, c, body = n[:5]
        if cv:
            states = self.declare(cv, states, fr)
        f = self.flow()
        vals = []
        for s in states:
            vals += self.ev(c, s, fr)
        stmts = body[1] if body and body[0] == 'block' else [body]
        # labels: list of (index, [labels], firststmt)
        flat = []      # (labels or None, stmt)
        for st in stmts:
            labels = []
            while st and st[0] in ('case', 'default'):
                if st[0] == 'case':
                    labels.append(st[2])
                    st = st[3]
                else:
                    labels.append('default')
                    st = st[2]
            flat.append((labels, st))
        alllabels = []
        for labels, _ in flat:
            for l in labels:
                if l != 'default':
                    alllabels.append(self.constval(l))
        entries = {}
        outside = []
        for t, s in vals:
            known = self.const_of(t, s)
            hasdefault = False
            for i, (labels, _) in enumerate(flat):
                for l in labels:
                    if l == 'default':
                        hasdefault = True
                        if known is None:
                            neg = [(self.eqterm(t, lv), False) for lv in alllabels]
                            if any((x, True) in s.facts for x, _ in neg):
                                continue
                            entries.setdefault(i, []).append(s.with_facts(neg))
                        elif known not in alllabels:
                            entries.setdefault(i, []).append(s)
                    else:
                        lv = self.constval(l)
                        if known is None:
                            eq = self.eqterm(t, lv)
                            if (eq, False) in s.facts:
                                continue
                            entries.setdefault(i, []).append(s.with_facts([(eq, True)]))
                        elif known == lv:
                            entries.setdefault(i, []).append(s)
            if not hasdefault:
                if known is None:
                    outside.append(s.with_facts([(self.eqterm(t, lv), False) for lv in alllabels]))
                elif known not in alllabels:
                    outside.append(s)
        cur = []
        for i, (labels, st) in enumerate(flat):
            cur = self.limit(cur + entries.get(i, []), fr)
            if not cur:
                continue
            if st is None or st == 0:
                continue
            g = self.stmt(st, cur, fr)
            cur = g['norm']
            f['brk'] += g['brk']
            f['cont'] += g['cont']
            f['ret'] += g['ret']
            f['throw'] += g['throw']
        f['norm'] = self.limit(cur + f['brk'] + outside, fr)
        f['brk'] = []
        return f

    def s_case(self, n, states, fr):
        return self.stmt(n[3], states, fr)

    def s_default(self, n, states, fr):
        return self.stmt(n[2], states, fr)

    def s_ret(self, n, states, fr):
        f = self.flow()
        for s in states:
            if not n[2]:
                f['ret'].append((None, s))
                continue
            e = n[2]
            # boolean returns: keep both outcomes apart
            for t, s1 in self.ev(e, s, fr):
                if t == ('noreturn',):
                    f['throw'].append(s1)
                else:
                    f['ret'].append((t, s1))
        if f['ret']:
            self.lines.append(n[1])
        return f

    def s_break(self, n, states, fr):
        f = self.flow()
        f['brk'] = list(states)
        return f

    def s_continue(self, n, states, fr):
        f = self.flow()
        f['cont'] = list(states)
        return f

    def s_throw(self, n, states, fr):
        f = self.flow()
        f['throw'] = list(states)
        return f

    def s_try(self, n, states, fr):
        g = self.stmt(n[2], states, fr)
        entry = self.limit(list(states) + g['throw'], fr)
        for h in n[3]:
            g2 = self.stmt(h, entry, fr)
            self.merge(g, g2, True)
        return g

    def s_xstmt(self, n, states, fr):
        return self.block(n[2], states, fr)

    # ------------------------------------------------------------------ conditions
    def constval(self, e):
        if e[0] == 'enum':
            return ('enum', self.P.canon.get(e[1], e[1]))
        if e[0] == 'int':
            return ('const', int(e[1]))
        if e[0] == 'chr' or e[0] == 'bool':
            return ('const', e[1])
        if e[0] == 'gvar' and len(e) > 2 and e[2] != '':
            return ('const', int(e[2]))
        if e[0] == 'cast':
            return self.constval(e[3])
        if e[0] == 'un' and e[1] == '-':
            v = self.constval(e[2])
            return ('const', -v[1]) if v[0] == 'const' else v
        return ('unk', str(e[0]))

    def const_of(self, t, s):
        if ground(t):
            return t
        # a fact `t == c`
        for (x, b) in s.facts:
            if b and x[0] == 'bin' and x[1] == '==':
                if x[2] == t and x[3][0] in ('enum', 'const'):
                    return x[3]
                if x[3] == t and x[2][0] in ('enum', 'const'):
                    return x[2]
        return None

    def eqterm(self, a, b):
        a, b = sorted((a, b), key=repr)
        return ('bin', '==', a, b)

    def truth(self, t, s):
        """True / False / None"""
        if t[0] == 'const':
            return bool(t[1])
        if t[0] == 'null':
            return False
        if t[0] in self.truthy or t[0] == 'atom':
            return True
        if self.truth_hook is not None:
            r = self.truth_hook(t, s)
            if r is not None:
                return r
        if t[0] == 'ctor' and t[1] in self.P.classes and not any(m[0].name.startswith('operator bool') for m in self.P.classes[t[1]].methods):
            return True         # the address of an object
        if t[0] in ('ctor', 'lambda', 'str'):
            return None
        if (t, True) in s.facts:
            return True
        if (t, False) in s.facts:
            return False
        if t[0] == 'un' and t[1] == '!':
            v = self.truth(t[2], s)
            return None if v is None else not v
        if t[0] == 'bin' and t[1] == '==':
            a, b = t[2], t[3]
            if (('bin', '<', a, b), True) in s.facts or (('bin', '<', b, a), True) in s.facts:
                return False
            if {a[0], b[0]} in ({'mapend', 'pair'}, {'setend', 'setit'}):
                return False
            if a == b and a[0] in ('mapend', 'setend'):
                return True
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                return a[2] == b[2]
            if a[0] == 'call' and b[0] == 'it':
                a, b = b, a
            if a[0] == 'it' and b[0] == 'call' and b[2] == a[1] and a[1][0] == 'vec' \
                    and b[1].rsplit('::', 1)[-1] in ('end', 'cend'):
                return a[2] == len(a[1][1])
            if a[0] == 'atom' and b[0] in ('atom', 'null') or b[0] == 'atom' and a[0] == 'null':
                return a == b
            if a[0] in ('enum', 'const', 'null') and b[0] in ('enum', 'const', 'null'):
                return a == b
            if a == b and a[0] not in ('unk', 'iv', 'call', 'phi', 'uninit'):
                return True
            ca, cb = self.const_of(a, s), self.const_of(b, s)
            if ca and cb:
                return ca == cb
        if t[0] == 'bin' and t[1] in ('<', '>', '<=', '>='):
            a, b = t[2], t[3]
            if a[0] == 'const' and b[0] == 'const':
                try:
                    return {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1],
                            '>=': a[1] >= b[1]}[t[1]]
                except TypeError:
                    return None
        if t[0] == 'bin' and t[1] == '&&':
            a, b = self.truth(t[2], s), self.truth(t[3], s)
            if a is False or b is False:
                return False
            if a and b:
                return True
        if t[0] == 'bin' and t[1] == '||':
            a, b = self.truth(t[2], s), self.truth(t[3], s)
            if a or b:
                return True
            if a is False and b is False:
                return False
        if t[0] == 'phi':
            vs = {self.truth(x, s) for x in t[1]}
            if len(vs) == 1:
                return vs.pop()
        return None

    def facts_of(self, t, b):
        """atomic facts implied by term t having truth b"""
        if t[0] == 'un' and t[1] == '!':
            return self.facts_of(t[2], not b)
        if t[0] == 'bin':
            if t[1] == '&&' and b:
                return self.facts_of(t[2], True) + self.facts_of(t[3], True)
            if t[1] == '||' and not b:
                return self.facts_of(t[2], False) + self.facts_of(t[3], False)
            if t[1] == '!=':
                return self.facts_of(self.eqnorm(t[2], t[3]), not b)
            if t[1] == '==':
                e = self.eqnorm(t[2], t[3])
                if e[0] != 'bin' or e[1] != '==':
                    return self.facts_of(e, b)
                return [(e, b)]
        if t[0] == 'dyn':
            out = [(('isa', t[1], core(t[2])), b)]
            if b:
                out.append((core(t[2]), True))
            return out
        return [(t, b)]

    def eqnorm(self, a, b):
        if a[0] == b[0] == 'const' and type(a[1]) in (int, bool) and type(b[1]) in (int, bool):
            return ('const', a[1] == b[1])
        for x, y in ((a, b), (b, a)):
            if y == ('null',):
                return ('un', '!', x)
            if y == ('const', True) and type(y[1]) is bool:
                return x
            if y == ('const', False) and type(y[1]) is bool:
                return ('un', '!', x)
        return self.eqterm(a, b)

    def split(self, t, s):
        """states where t is true / false"""
        if t == ('noreturn',):
            return [], []
        if t[0] == 'phi':
            pass
        v = self.truth(t, s)
        if v is None and t[0] == 'un' and t[1] == '!':
            a, b = self.split(t[2], s)
            return b, a
        if v is True:
            return [s], []
        if v is False:
            return [], [s]
        tf, ff = self.facts_of(t, True), self.facts_of(t, False)
        a, b = [], []
        if not any((x, not y) in s.facts for x, y in tf):
            a = [s.with_facts(tf)]
        if not any((x, not y) in s.facts for x, y in ff):
            b = [s.with_facts(ff)]
        return a, b

    def cond(self, e, s, fr):
        if not e:
            return [s], []
        k = e[0]
        if k == 'un' and e[1] == '!':
            a, b = self.cond(e[2], s, fr)
            return b, a
        if k == 'bin' and e[1] == '&&':
            a, b = self.cond(e[2], s, fr)
            ts, fs = [], list(b)
            for x in a:
                p, q = self.cond(e[3], x, fr)
                ts += p
                fs += q
            return ts, fs
        if k == 'bin' and e[1] == '||':
            a, b = self.cond(e[2], s, fr)
            ts, fs = list(a), []
            for x in b:
                p, q = self.cond(e[3], x, fr)
                ts += p
                fs += q
            return ts, fs
        if k == 'cast' and e[1] in ('static', 'c', 'functional') and e[2] == 'bool':
            return self.cond(e[3], s, fr)
        ts, fs = [], []
        for t, s1 in self.ev(e, s, fr):
            a, b = self.split(t, s1)
            ts += a
            fs += b
        return ts, fs

    # ------------------------------------------------------------------ expressions
    def resolve_key(self, k, s):
        n = 0
        while k in s.env and s.env[k][0] == 'alias' and n < 20:
            k = s.env[k][1]
            n += 1
        return k

    def varkey(self, e, s, fr):
        return self.resolve_key((fr.fid, e[1]), s)

    def ev(self, e, s, fr, wanttype=None):
        if not e:
            return [(('void',), s)]
        m = getattr(self, 'e_' + e[0], None)
        if m is None:
            return self.e_generic(e, s, fr)
        if wanttype is not None and e[0] in ('ilist', 'ctor'):
            return m(e, s, fr)
        return m(e, s, fr)

    def e_generic(self, e, s, fr):
        # evaluate children for their effects
        outs = [((), s)]
        for c in e[1:]:
            if type(c) is list and c and type(c[0]) is str:
                outs = [(ts + (t,), s2) for ts, s1 in outs for t, s2 in self.ev(c, s1, fr)]
            elif type(c) is list:
                for d in c:
                    if type(d) is list and d and type(d[0]) is str:
                        outs = [(ts + (t,), s2) for ts, s1 in outs for t, s2 in self.ev(d, s1, fr)]
        return [(('x', e[0], ts), s1) for ts, s1 in self.limit_pairs(outs)]

    def limit_pairs(self, ps, cap=8):
        if len(ps) <= cap:
            return ps
        if isinstance(ps[0][0], tuple) and ps[0][0] and isinstance(ps[0][0][0], tuple):
            # tuple of terms
            n = len(ps[0][0])
            t = tuple(mkphi([p[0][i] for p in ps]) for i in range(n))
        elif ps[0][0] == ():
            t = ()
        else:
            t = mkphi([p[0] for p in ps])
        st = ps[0][1]
        for p in ps[1:]:
            st = self.join(st, p[1])
        return [(t, st)]

    def evlist(self, es, s, fr):
        outs = [((), s)]
        for c in es:
            nxt = []
            for ts, s1 in outs:
                for t, s2 in self.ev(c, s1, fr):
                    nxt.append((ts + (t,), s2))
            outs = self.limit_pairs(nxt)
        return outs

    def e_int(self, e, s, fr):
        return [(('const', int(e[1])), s)]

    def e_chr(self, e, s, fr):
        return [(('const', e[1]), s)]

    def e_bool(self, e, s, fr):
        return [(('const', bool(e[1])), s)]

    def e_flt(self, e, s, fr):
        return [(('const', e[1]), s)]

    def e_null(self, e, s, fr):
        return [(('null',), s)]

    def e_str(self, e, s, fr):
        return [(('str', e[1]), s)]

    def e_enum(self, e, s, fr):
        return [(('enum', self.P.canon.get(e[1], e[1])), s)]

    def e_gvar(self, e, s, fr):
        if len(e) > 2 and e[2] != '':
            return [(('const', int(e[2])), s)]
        k = (fr.fid, 'static', e[1].rsplit('::', 1)[-1])
        if k in s.env:
            return [(s.env[k], s)]
        name = e[1]
        if '::' not in name and name not in ('stdout', 'stderr', 'stdin'):
            name = fr.func.q + '::' + name        # a local static
        return [(('gvar', name), s)]

    def e_fn(self, e, s, fr):
        if len(e) > 2:
            return [(('bound', e[1].q, t), s1) for t, s1 in self.ev(e[2], s, fr)]
        self.fndecls[e[1].key] = e[1]
        return [(('fn', e[1].q, e[1].key), s)]

    def e_this(self, e, s, fr):
        return [(fr.obj if fr.obj is not None else ('this',), s)]

    def e_var(self, e, s, fr):
        k = self.varkey(e, s, fr)
        if k in s.env:
            return [(s.env[k], s)]
        return [(('var', e[2], k[0]), s)]

    def e_bind(self, e, s, fr):
        base = self.ev(['var', e[1], '?'], s, fr)
        out = []
        for t, s1 in base:
            if e[3]:
                # member / tuple element expression on the holder
                out += self.ev(e[3], s1, fr)
            elif core(t)[0] == 'ctor' and core(t)[1] in ('std::pair<>', 'std::tuple<>') and e[4] < len(core(t)[2]):
                out.append((core(t)[2][e[4]], s1))
            else:
                out.append((('bindof', t, e[2]), s1))
        return out

    def e_mem(self, e, s, fr):
        if not e[1]:
            return [(('field', fr.obj or ('this',), e[2]), s)]
        out = []
        for b, s1 in self.ev(e[1], s, fr):
            out.append((self.field(pointee(b), e[2], s1), s1))
        return out

    def field(self, b, name, s):
        b = core(b)
        k = ('F', b, name)
        if k in s.env:
            return s.env[k]
        if b[0] == 'phi':
            return mkphi([self.field(x, name, s) for x in b[1]])
        if b[0] == 'rec':
            for f, v in b[2]:
                if f == name:
                    return v
        if b[0] in ('pair',) and name in ('first', 'second'):
            return b[1] if name == 'first' else b[2]
        if b[0] == 'ctor' and len(b[2]) == 2 and b[1].startswith('std::pair<'):
            return b[2][0] if name == 'first' else b[2][1]
        if b[0] == 'ctor' and self.ctorfields is not None:
            m = self.ctorfields(b)
            if m is not None and name in m:
                return m[name]
        return ('field', b, name)

    def e_asg(self, e, s, fr):
        out = []
        op, l, r = e[1], e[2], e[3]
        for t, s1 in self.ev(r, s, fr):
            out += self.assign(l, t, op, s1, fr, e[4])
        return out

    def lvalue(self, l, t, s, fr):
        """record mode: the state after storing t into the lvalue l, or None if l is not followed"""
        if l[0] == 'var':
            s2 = s.fork()
            s2.env[self.varkey(l, s2, fr)] = t
            return s2
        if l[0] == 'mem':
            if not l[1]:
                bs = [(fr.obj or ('this',), s)]
            else:
                bs = self.ev(l[1], s, fr)
            if len(bs) != 1:
                return None
            b, s1 = core(bs[0][0]), bs[0][1]
            if b[0] == 'rec':
                return self.lvalue(l[1], ('rec', b[1], tuple((f, t if f == l[2] else v) for f, v in b[2])), s1, fr)
            s2 = s1.fork()
            s2.env[('F', b, l[2])] = t
            return self.emit('set', None, b, (t,), 0, s2, fr, name=l[2], q=l[3] + '::' + l[2])
        if l[0] == 'idx' or l[0] == 'call' and l[1].name in ('operator[]', 'at') and l[2] and \
                (l[1].cls or '').startswith(('std::vector<', 'std::array<')):
            be, ie = (l[1], l[2]) if l[0] == 'idx' else (l[2], l[3][0])
            bs = self.ev(be, s, fr)
            if len(bs) != 1:
                return None
            b, s1 = bs[0]
            ix = self.ev(ie, s1, fr)
            if len(ix) != 1:
                return None
            i, s2 = ix[0]
            if b[0] == 'vec' and i[0] == 'const' and all(x[0] != 'each' for x in b[1]) and i[1] < len(b[1]):
                return self.lvalue(be, ('vec', b[1][:i[1]] + (t,) + b[1][i[1] + 1:]), s2, fr)
            return None
        if l[0] == 'un' and l[1] in ('*', '&') or l[0] == 'cast':
            return self.lvalue(l[2] if l[0] == 'un' else l[3], t, s, fr) if l[-1] else None
        return None

    def assign(self, l, t, op, s, fr, line):
        out = []
        if self.conc and l[0] in ('idx', 'call', 'mem') and not self.loopdepth:
            if op != '=':
                cur = self.ev(l, s, fr)
                if len(cur) == 1:
                    v = self.binop(op[:-1], cur[0][0], t)
                    s2 = self.lvalue(l, v, cur[0][1], fr)
                    if s2 is not None:
                        return [(v, s2)]
            else:
                s2 = self.lvalue(l, t, s, fr)
                if s2 is not None:
                    return [(t, s2)]
        if l[0] == 'var':
            s2 = s.fork()
            k = self.varkey(l, s2, fr)
            if op != '=':
                old = s2.env.get(k, ('var', l[2]))
                t = self.binop(op[:-1], old, t)
            old = s2.env.get(k)
            s2.env[k] = t
            self.emit('setvar', None, None, (t,), line, s2, fr, name=l[2], q=l[2])
            return [(t, s2)]
        if l[0] == 'mem':
            for b, s1 in self.ev(l[1], s, fr) if l[1] else [(fr.obj or ('this',), s)]:
                b = core(b)
                s2 = s1.fork()
                if op != '=':
                    t2 = self.binop(op[:-1], self.field(b, l[2], s2), t)
                else:
                    t2 = t
                s2.env[('F', b, l[2])] = t2
                s2 = self.emit('set', None, b, (t2,), line, s2, fr, name=l[2], q=l[3] + '::' + l[2])
                out.append((t2, s2))
            return out
        if l[0] == 'un' and l[1] == '*':
            for b, s1 in self.ev(l[2], s, fr):
                s2 = self.emit('store', None, b, (t,), line, s1, fr, name='*', q='*')
                out.append((t, s2))
            return out
        if l[0] == 'call' and l[1].name in ('operator[]', 'at') and l[2] and l[2][0] == 'var' and op == '=' \
                and (l[1].cls or '').startswith(('std::unordered_map<', 'std::map<')):
            k = self.varkey(l[2], s, fr)
            m = map_literal(s.env.get(k, ('unk',)))
            if m is not None and not self.loopdepth:
                for (key,), s1 in self.evlist(l[3][:1], s, fr):
                    m2 = dict(m)
                    m2[key] = t
                    s2 = s1.fork()
                    s2.env[k] = ('map', tuple(m2.items()))
                    s2 = self.emit('store', None, ('map',), (key, t), line, s2, fr, name=op, q=op)
                    out.append((t, s2))
                return out
        for b, s1 in self.ev(l, s, fr):
            s2 = self.emit('store', None, b, (t,), line, s1, fr, name=op, q=op)
            out.append((t, s2))
        return out

    def binop(self, op, a, b):
        if op == '!=':
            v = self.eqnorm(a, b)
            return ('const', not v[1]) if v[0] == 'const' and type(v[1]) is bool else ('un', '!', v)
        if op == '==':
            return self.eqnorm(a, b)
        if a[0] == 'const' and b[0] == 'const' and type(a[1]) in (int, bool) and type(b[1]) in (int, bool):
            x, y = int(a[1]), int(b[1])
            if op == '+':
                return ('const', x + y)
            if op == '-':
                return ('const', x - y)
            if op == '*':
                return ('const', x * y)
            if op == '<<' and 0 <= y < 128:
                return ('const', x << y)
            if op == '|':
                return ('const', x | y)
            if op == '&':
                return ('const', x & y)
        if a[0] == 'it' and b[0] == 'const' and op in ('+', '-'):
            return ('it', a[1], a[2] + b[1] if op == '+' else a[2] - b[1])
        return ('bin', op, a, b)

    def e_bin(self, e, s, fr):
        op = e[1]
        if op in ('&&', '||'):
            ts, fs = self.cond(e, s, fr)
            # value context: build the term from plain evaluation when there is no effect
            out = []
            va = self.pure_term(e, s, fr)
            if va is not None:
                return [(va, s)]
            for x in ts:
                out.append((('const', True), x))
            for x in fs:
                out.append((('const', False), x))
            return self.limit_pairs(out, self.CAP)
        if op == ',':
            out = []
            for _, s1 in self.ev(e[2], s, fr):
                out += self.ev(e[3], s1, fr)
            return out
        out = []
        for (a, b), s1 in self.evlist([e[2], e[3]], s, fr):
            out.append((self.binop(op, a, b), s1))
        return out

    def pure_term(self, e, s, fr):
        return None

    def e_un(self, e, s, fr):
        op = e[1]
        if op == '*':
            return [(pointee(t), s1) for t, s1 in self.ev(e[2], s, fr)]
        if op == '&':
            return self.ev(e[2], s, fr)
        if op in ('++', '--', 'p++', 'p--'):
            out = []
            for t, s1 in self.ev(e[2], s, fr):
                d = ('const', 1)
                nt = self.binop('+' if '+' in op else '-', t, d)
                if e[2][0] == 'var':
                    s2 = s1.fork()
                    s2.env[self.varkey(e[2], s2, fr)] = nt
                else:
                    s2 = s1
                    if e[2][0] == 'mem':
                        r = self.assign(e[2], nt, '=', s1, fr, e[3])
                        s2 = r[0][1]
                out.append((t if op[0] == 'p' else nt, s2))
            return out
        out = []
        for t, s1 in self.ev(e[2], s, fr):
            if op == '!':
                v = self.truth(t, s1)
                if v is not None:
                    out.append((('const', not v), s1))
                    continue
                if t[0] == 'un' and t[1] == '!':
                    out.append((t[2], s1))
                    continue
            if op == '-' and t[0] == 'const' and type(t[1]) is int:
                out.append((('const', -t[1]), s1))
                continue
            out.append((('un', op, t), s1))
        return out

    def e_cond(self, e, s, fr):
        ts, fs = self.cond(e[1], s, fr)
        out = []
        for x in ts:
            out += self.ev(e[2], x, fr)
        for x in fs:
            out += self.ev(e[3], x, fr)
        # asserts: only the live side remains
        out = [(t, x) for t, x in out if t != ('noreturn',)] or out[:1]
        return self.limit_pairs(out)

    def e_elvis(self, e, s, fr):
        ts, fs = self.cond(e[1], s, fr)
        out = []
        for x in ts:
            out += self.ev(e[1], x, fr)
        for x in fs:
            out += self.ev(e[2], x, fr)
        return out

    def e_cast(self, e, s, fr):
        kind, ty = e[1], e[2]
        out = []
        for t, s1 in self.ev(e[3], s, fr):
            if kind == 'dynamic':
                T = clsname(ty)
                if ty.endswith('&'):
                    out.append((core(t), s1.with_facts([(('isa', T, core(t)), True)])))
                    continue
                if t[0] == 'ctor' and self.P.is_a(t[1], T):
                    out.append((t, s1))
                    continue
                out.append((('dyn', T, core(t)), s1))
            elif kind in ('functional', 'c', 'static') and ty == 'void':
                out.append((('void',), s1))
            else:
                out.append((t, s1))
        return out

    def e_idx(self, e, s, fr):
        out = []
        for (a, b), s1 in self.evlist([e[1], e[2]], s, fr):
            out.append((self.index(a, b), s1))
        return out

    def index(self, a, i):
        if a[0] == 'vec' and i[0] == 'const' and type(i[1]) is int:
            if all(x[0] != 'each' for x in a[1][:i[1] + 1]) and i[1] < len(a[1]):
                return a[1][i[1]]
        if a[0] == 'vec' and i[0] == 'iv':
            return self.element(a, i)
        return ('index', a, i)

    def e_ilist(self, e, s, fr):
        c = clsname(e[1]) if self.recs and type(e[1]) is str else None
        if c in self.P.classes and self.is_aggregate(c):
            fl = self.P.classes[c].fields
            return [(('rec', c, tuple((f[0], ts[i] if i < len(ts) else self.default_value(f[1]))
                                      for i, f in enumerate(fl))), s1) for ts, s1 in self.evlist(e[2], s, fr)]
        return [(('vec', ts), s1) for ts, s1 in self.evlist(e[2], s, fr)]

    def is_aggregate(self, c):
        C = self.P.classes[c]
        return bool(C.fields) and not any(m[1] == '<ctor>' for m in C.methods)

    def e_new(self, e, s, fr):
        out = []
        for t, s1 in self.ev(e[2], s, fr) if e[2] else [(('ctor', clsname(e[1]), ()), s)]:
            if t[0] != 'ctor' and not (self.ctorhook is not None and t[0] in ('atom', 'port', 'node')):
                t = ('ctor', clsname(e[1]), (t,))
            s1 = self.emit('new', None, None, (t,), e[3], s1, fr, name=t[1], q=t[1])
            out.append((t, s1))
        return out

    def e_del(self, e, s, fr):
        return [(('void',), self.emit('delete', None, t, (), e[2], s1, fr, name='delete', q='delete'))
                for t, s1 in self.ev(e[1], s, fr)]

    def e_throw(self, e, s, fr):
        if e[1]:
            return [(('noreturn',), s1) for _, s1 in self.ev(e[1], s, fr)]
        return [(('noreturn',), s)]

    def e_sizeof(self, e, s, fr):
        return [(('sizeof', e[1] if type(e[1]) is str else '?'), s)]

    def e_zero(self, e, s, fr):
        if e[1] == 'bool':
            return [(('const', False), s)]
        return [(('const', 0), s)]

    def e_lambda(self, e, s, fr):
        self.unk += 1
        key = ('lambda', self.unk)
        # init captures
        s2 = s
        for c in e[1]:
            if c and c[0] in ('val', 'ref') and len(c) > 3:
                for t, s1 in self.ev(c[3], s2, fr)[:1]:
                    s2 = s1.fork()
                    s2.env[(fr.fid, c[1])] = t
        self.closures[key] = (e, fr)
        return [(key, s2)]

    def call_lambda(self, key, args, s, fr, line):
        e, dfr = self.closures[key]
        depth = 0
        f = fr
        while f is not None:
            if getattr(f, 'lam', None) == key:
                return [(('unk', 'reclambda'), s)]
            f = f.parent
        if e[2] == 'generic':
            specs = e[3]
            spec = None
            for sp in specs:
                if len(sp[0]) == len(args):
                    spec = sp
            if spec is None:
                return [(('unk', 'lambda'), s)]
            params, body = spec[0], spec[1]
        else:
            params, body = e[2], e[3]
        # the body's variables belong to the defining frame
        nf = Frame(dfr.func, dfr.fid, dfr.obj, fr.depth + 1, fr)
        nf.lam = key
        s2 = s.fork()
        for i, p in enumerate(params):
            if i < len(args):
                s2.env[(dfr.fid, p[0])] = args[i]
            else:
                s2.env[(dfr.fid, p[0])] = ('lparam', p[1], i)
        flow = self.block([body], [s2], nf)
        out = [(t if t is not None else ('void',), x) for t, x in flow['ret']]
        out += [(('void',), x) for x in flow['norm']]
        if not out:
            return [(('noreturn',), s)]
        return self.limit_pairs(out)

    def walk_lambda(self, key, s, fr):
        """a lambda handed to an unknown callee: its body may run"""
        e, dfr = self.closures[key]
        bodies = [(sp[0], sp[1]) for sp in e[3]] if e[2] == 'generic' else [(e[2], e[3])]
        f = fr
        while f is not None:
            if getattr(f, 'lam', None) == key:
                return s
            f = f.parent
        self.loopdepth += 1
        for params, body in bodies:
            nf = Frame(dfr.func, dfr.fid, dfr.obj, fr.depth + 1, fr)
            nf.lam = key
            s2 = self.havoc([s], ['x', [body]], nf)[0].fork()
            for i, p in enumerate(params):
                s2.env[(dfr.fid, p[0])] = ('lparam', p[1], i)
            g = self.block([body], [s2], nf)
            ends = g['norm'] + [x for _, x in g['ret']]
            for x in ends:
                s = self.join(s, x)
        self.loopdepth -= 1
        return s

    # ---- calls
    def e_ctor(self, e, s, fr):
        decl, cls, args, line = e[1], e[2], e[3], e[4]
        out = []
        for ts, s1 in self.evlist(args, s, fr):
            s1 = self.emit('ctor', decl, None, ts, line, s1, fr, name=cls, q=cls)
            if decl.copy and len(ts) >= 1:
                out.append((ts[0], s1))
                continue
            if self.ctorhook is not None:
                r = self.ctorhook(self, cls, ts, s1, fr, decl, e)
                if r is not None:
                    out.append(r)
                    continue
            if self.recs and not ts and cls in self.P.classes and self.is_aggregate(cls) \
                    and cls.startswith('jlm::') and not cls.startswith(SETS):
                out.append((('rec', cls, tuple((f[0], self.default_value(f[1]))
                                               for f in self.P.classes[cls].fields)), s1))
                continue
            if cls.startswith('std::vector<'):
                if not ts:
                    out.append((('vec', ()), s1))
                    continue
                if len(ts) >= 1 and ts[0][0] == 'vec':
                    out.append((ts[0], s1))
                    continue
                ptys = split_params(decl.sig)
                if len(ts) >= 2 and ptys and ptys[0].startswith('unsigned long'):
                    n, v = ts[0], ts[1]
                    if len(ptys) == 2 and 'allocator<' in ptys[1] and ptys[1].removeprefix('const ').startswith('std::allocator<'):
                        el = split_params('(' + cls[12:-1] + ')')[0].strip()
                        v = ('ctor', decl.ta[0] if decl.ta else el if self.ctorhook is not None else '?', ())
                        if self.conc and el.endswith('*'):
                            v = ('null',)
                        elif self.recs and el in self.P.classes and self.is_aggregate(el) and el.startswith('jlm::') \
                                and self.ctorhook(self, el, (), s1, fr, None, e) is None:
                            v = self.default_value(el)
                    if n[0] == 'const' and type(n[1]) is int and n[1] <= 16:
                        vs = (v,) * n[1]
                        if self.ctorhook is not None and v[0] == 'ctor':
                            vs = ()
                            for _ in range(n[1]):
                                r = self.ctorhook(self, v[1], v[2], s1, fr, None, e)
                                vs += (r[0] if r else v,)
                                s1 = r[1] if r else s1
                        out.append((('vec', vs), s1))
                    else:
                        out.append((('vec', (('each', v, n),)), s1))
                    continue
                if len(ts) >= 2 and ts[0][0] == 'it' and ts[1][0] == 'it' and ts[0][1] == ts[1][1]:
                    out.append((('vec', ts[0][1][1][ts[0][2]:ts[1][2]]), s1))
                    continue
                if self.conc and len(ts) >= 2 and ts[0][0] == 'it' and ts[1] == ('setend',):
                    out.append((('vec', ts[0][1][1][ts[0][2]:]), s1))
                    continue
                if len(ts) >= 2 and ts[0][0] == 'call' and ts[0][1].endswith('begin') and ts[0][2] is not None:
                    src = ts[0][2]
                    out.append((src if src[0] == 'vec' else
                                ('vec', (('each', ('index', src, ('iv', 0, ('const', 0), None)), src),)), s1))
                    continue
            if self.conc and cls.startswith(SETS) and len(ts) >= 2 and ts[0][0] == 'it' and ts[1][0] == 'it' and ts[0][1] == ts[1][1]:
                out.append((('ctor', cls, tuple(dict.fromkeys(ts[0][1][1][ts[0][2]:ts[1][2]]))), s1))
                continue
            if cls.startswith('__gnu_cxx::__normal_iterator<') and len(ts) == 1 and ts[0][0] == 'it':
                out.append((ts[0], s1))
                continue
            if cls.startswith('std::shared_ptr') and len(ts) == 2 and ts[0] == ('null',):
                out.append((ts[1], s1))
                continue
            if cls.startswith(PTR_CLASSES) or cls.startswith(('std::function<', 'std::basic_string_view')):
                if len(ts) == 1 or (ts and cls.startswith(('std::unique_ptr', 'std::shared_ptr'))):
                    out.append((ts[0], s1))
                    continue
                if not ts:
                    out.append((('null',), s1))
                    continue
            if cls.startswith('std::basic_string<') and ts and (ts[0][0] == 'str' or self.conc and (len(ts) == 1 or len(
                    ts) == 2 and ts[1][0] == 'ctor' and ts[1][1].startswith('std::allocator<'))):
                out.append((ts[0], s1))
                continue
            out.append((('ctor', cls, ts), s1))
        return out

    def e_ucall(self, e, s, fr):
        out = []
        for c, s1 in self.ev(e[1], s, fr):
            for ts, s2 in self.evlist(e[2], s1, fr):
                if c[0] == 'lambda':
                    out += self.call_lambda(c, ts, s2, fr, e[3])
                    continue
                s2 = self.emit('ucall', None, c, ts, e[3], s2, fr, name=str(c[1]) if len(c) > 1 else '?',
                               q=str(c[1]) if len(c) > 1 else '?')
                for a in ts:
                    if a[0] == 'lambda':
                        s2 = self.walk_lambda(a, s2, fr)
                if c[0] == 'fn' and c[2] in self.fndecls:
                    d = self.fndecls[c[2]]
                    out += self.call(d, None, ts, s2, fr, e[3], ['call', d, 0, e[2], e[3]])
                elif c[0] == 'fn':
                    out.append((('call', c[1], None, ts, ()), s2))
                else:
                    out.append((('ucall', c, ts), s2))
        return out

    def e_call(self, e, s, fr):
        decl, obj, args, line = e[1], e[2], e[3], e[4]
        out = []
        if obj:
            objs = self.ev(obj, s, fr)
        else:
            objs = [(None, s)]
        for o, s1 in objs:
            if o is not None and o[0] == 'it' and decl.cls and 'terator' not in decl.cls:
                o = pointee(o)
            for ts, s2 in self.evlist(args, s1, fr):
                out += self.call(decl, o, ts, s2, fr, line, e)
        return self.limit_pairs(out, self.CAP)

    def emit(self, kind, decl, obj, args, line, s, fr, name=None, q=None, result=None, node=None):
        ev = Event()
        ev.kind, ev.decl, ev.obj, ev.args, ev.line = kind, decl, obj, args, line
        ev.q = q if q is not None else decl.q
        ev.name = name if name is not None else decl.name
        ev.file = fr.func.file
        ev.facts, ev.loops = s.facts, self.loopdepth
        ev.func = fr.func
        ev.result = result
        ev.node = node
        ev.user = s.user
        ev.stack = fr
        self.events.append(ev)
        if self.on_event:
            u = self.on_event(ev, s)
            if u is not None and u is not s:
                return u
        return s

    def call(self, decl, o, ts, s, fr, line, e):
        q, name = decl.q, decl.name
        if self.hook:
            r = self.hook(self, decl, o, ts, s, fr, e)
            if r is not None:
                return r
        # --- primitives
        if q in IDENT_CALLS and ts:
            return [(ts[0], s)]
        if decl.cls and decl.cls.startswith(PTR_CLASSES) and name in PTR_METHODS and o is not None:
            return [(o, s)]
        if q in ('std::make_unique', 'std::make_shared') and decl.ta:
            c = decl.ta[0]
            if c.startswith('std::vector<'):
                return [(ts[0] if ts else ('vec', ()), s)]
            t = ('ctor', c, ts)
            s = self.emit('ctor', decl, None, ts, line, s, fr, name=c, q=c)
            if self.ctorhook is not None:
                r = self.ctorhook(self, c, ts, s, fr, None, e)
                if r is not None:
                    return [r]
            return [(t, s)]
        if q == 'std::make_pair' or q == 'std::make_tuple':
            s = self.emit('call', decl, o, ts, line, s, fr, node=e)
            return [(('ctor', 'std::pair<>' if q.endswith('pair') else 'std::tuple<>', ts), s)]
        if q == 'std::get' and ts and ts[0][0] == 'ctor' and decl.ta and decl.ta[0].isdigit():
            i = int(decl.ta[0])
            if i < len(ts[0][2]):
                return [(ts[0][2][i], s)]
        if q == 'jlm::rvsdg::is' and decl.ta and ts:
            return [(('dyn', decl.ta[0], core(ts[0])), s)]
        if q == 'jlm::util::assertedCast' and ts:
            return [(core(ts[0]), s)]
        if q in ('std::dynamic_pointer_cast',) and decl.ta:
            return [(('dyn', clsname(decl.ta[0]), core(ts[0])), s)]
        if name in ('operator==', 'operator!=') and (decl.cls is None) and len(ts) == 2:
            return [(self.binop('==' if name == 'operator==' else '!=', ts[0], ts[1]), s)]
        if q == 'std::find' and len(ts) == 3 and ts[0][0] == 'call' and ts[0][2] is not None and ts[0][2][0] == 'vec' \
                and ground(ts[2]) and all(ground(x) for x in ts[0][2][1]):
            v = ts[0][2]
            return [(('it', v, v[1].index(ts[2]) if ts[2] in v[1] else len(v[1])), s)]
        if self.conc and ts and ts[0][0] == 'it':
            r = algo.call(self, q, ts, s, fr, line, e)
            if r is not None:
                return r
        if q in ('std::equal', 'std::all_of', 'std::none_of', 'std::any_of') and len(ts) >= 2:
            r = self.std_algo(q, ts, s, fr, line)
            if r is not None:
                return r
        if decl.cls and decl.cls.startswith('jlm::util::BijectiveMap<') and o is not None:
            m = map_literal(o)
            k = self.const_of(ts[0], s) if len(ts) == 1 else None
            if m is not None and k is not None:
                if 'Value' in name:
                    m = {v: a for a, v in m.items()}
                if name.startswith('Has'):
                    return [(('const', k in m), s)]
                if name in ('LookupKey', 'LookupValue'):
                    if k in m:
                        return [(m[k], s)]
                    return [(('noreturn',), s)]
        # vectors
        if decl.cls and (decl.cls.startswith('std::') or decl.cls.startswith(SETS)) and o is not None:
            r = self.std_member(decl, o, ts, s, fr, line, e)
            if r is not None:
                return r
        if o is not None and o[0] == 'lambda' and name == 'operator()':
            return self.call_lambda(o, ts, s, fr, line)
        if decl.cls and decl.cls.startswith('std::function<') and name == 'operator()' and o and o[0] == 'lambda':
            return self.call_lambda(o, ts, s, fr, line)
        # --- inlining
        target = decl
        if decl.virt and self.dyn and o is not None and len(e) <= 5:
            d2 = self.dyn(decl, o)
            if d2 is not None:
                target = d2
        f = self.inline_target(target, o, fr, e, decl)
        s = self.emit('call', decl, o, ts, line, s, fr, node=e)
        if f is not None:
            return self.inline(f, target, o, ts, s, fr, e)
        if decl.nr:
            return [(('noreturn',), s)]
        for a in ts:
            if a[0] == 'lambda':
                s = self.walk_lambda(a, s, fr)
        # by-reference vector arguments may be modified
        if name == 'operator[]' or name == 'at':
            if o is not None and len(ts) == 1:
                return [(self.index(o, ts[0]), s)]
        if name == 'operator=' and o is not None and e[2] and len(ts) == 1:
            return self.assign(e[2], ts[0], '=', s, fr, line)
        if q not in ('std::back_inserter', 'std::inserter', 'std::front_inserter'):
            s = self.clobber(decl, e, s, fr)
        ob = e[2]
        if ob and ob[0] == 'mem' and decl.cls and not decl.static and not decl.sig.endswith(' const') and ts:
            C = self.P.classes.get(ob[3])
            ft = next((f[1] for f in C.fields if f[0] == ob[2]), '') if C else ''
            if ft and not ft.endswith(('*', '&')) and clsname(ft) == decl.cls:
                for b, s1 in (self.ev(ob[1], s, fr) if ob[1] else [(fr.obj or ('this',), s)])[:1]:
                    s = s.fork()
                    k = ('F', core(b), ob[2])
                    old = s.env.get(k, ('field', core(b), ob[2]))
                    items = old[2] if old[0] == 'mut' else ()
                    base = old[1] if old[0] == 'mut' else old
                    it = (name, ts)
                    if it not in items:
                        s.env[k] = ('mut', base, items + (it,))
        return [(('call', q, core(o) if o else None, ts, tuple(decl.ta)), s)]

    def clobber(self, decl, e, s, fr):
        """an opaque call may change locals passed by non-const reference"""
        ps = split_params(decl.sig)
        s2 = None
        for i, a in enumerate(e[3]):
            if i < len(ps) and ps[i].endswith('&') and not ps[i].endswith('&&') \
                    and not ps[i].startswith('const ') and a and a[0] == 'var':
                s2 = s2 or s.fork()
                k = self.varkey(a, s2, fr)
                old = s2.env.get(k)
                if old is not None and old[0] in ('vec', 'uninit', 'const', 'phi', 'enum'):
                    self.unk += 1
                    s2.env[k] = ('out', decl.q, i, old if old[0] != 'uninit' else None)
        return s2 or s

    def std_algo(self, q, ts, s, fr, line):
        srcs = []
        for y in ts:
            if y[0] == 'call' and y[2] is not None and y[1].rsplit('::', 1)[-1] in ('begin', 'cbegin'):
                srcs.append(y[2])
            elif y[0] == 'it' and y[2] == 0 and (y[1][1] or not srcs):
                srcs.append(y[1])
        lam = ts[-1] if ts[-1][0] == 'lambda' else None
        iv = ('iv', self.loopdepth + 1, ('const', 0), -1)
        if q == 'std::equal' and len(srcs) == 2:
            if lam:
                return self.call_lambda(lam, tuple(self.element(x, iv) for x in srcs), s, fr, line)
            if len(ts) in (3, 4):
                return [(self.eqnorm(srcs[0], srcs[1]), s)]
        if q == 'std::all_of' and len(srcs) == 1 and lam:
            return self.call_lambda(lam, (self.element(srcs[0], iv),), s, fr, line)
        if q == 'std::none_of' and len(srcs) == 1 and lam:
            return [(('un', '!', t), x) for t, x in self.call_lambda(lam, (self.element(srcs[0], iv),), s, fr, line)]
        return None

    def iter_member(self, decl, o, ts, s, fr, line, e):
        name, cls = decl.name, decl.cls
        if o[0] == 'vec' and all(x[0] != 'each' for x in o[1]) and not ts:
            if name in ('begin', 'cbegin'):
                return [(('it', o, 0), s)]
            if name in ('end', 'cend'):
                return [(('it', o, len(o[1])), s)]
        if o[0] == 'it':
            if name in ('operator==', 'operator!=') and len(ts) == 1 and core(ts[0])[0] == 'it' and core(ts[0])[1] == o[1]:
                return [(('const', (o[2] == core(ts[0])[2]) == (name == 'operator==')), s)]
            if name in ('operator*', 'operator->', 'ptr') and not ts:
                return [(o[1][1][o[2]] if 0 <= o[2] < len(o[1][1]) else ('unk', 'past-the-end'), s)]
            if name in ('operator++', 'operator--') and e[2]:
                new = ('it', o[1], o[2] + (1 if '+' in name else -1))
                r = self.assign(e[2], new, '=', s, fr, line)
                return [(o if ts else new, x) for _, x in r]
            if name in ('operator+', 'operator-') and len(ts) == 1:
                return [(self.binop(name[-1], o, ts[0]), s)]
            if name == 'operator[]' and ts[0][0] == 'const':
                return [(self.index(o[1], ('const', o[2] + ts[0][1])), s)]
        return None

    def std_member(self, decl, o, ts, s, fr, line, e):
        name, cls = decl.name, decl.cls
        if self.conc:
            r = self.iter_member(decl, o, ts, s, fr, line, e)
            if r is not None:
                return r
        if name in ('push_back', 'emplace_back') and cls.startswith('std::vector<'):
            s = self.emit('call', decl, o, ts, line, s, fr, node=e)
            if o[0] == 'vec' and e[2] and (e[2][0] in ('var', 'mem') or self.conc and not self.loopdepth):
                item = ts[0] if len(ts) == 1 else ('ctor', '?', ts)
                if self.loopdepth:
                    item = ('each', item, None)
                    if item in o[1]:
                        return [(item, s)]
                r = self.assign(e[2], ('vec', o[1] + (item,)), '=', s, fr, line)
                return [(item, x) for _, x in r]
            return [(('void',), s)]
        if name == 'insert' and cls.startswith('std::vector<') and o[0] == 'vec' and e[2] and e[2][0] == 'var':
            s = self.emit('call', decl, o, ts, line, s, fr, node=e)
            if len(ts) == 3 and ts[1][0] == 'it' and ts[2][0] == 'it' and ts[0][0] == 'it':
                items = ts[1][1][1][ts[1][2]:ts[2][2]]
                new = o[1][:ts[0][2]] + items + o[1][ts[0][2]:]
                r = self.assign(e[2], ('vec', new), '=', s, fr, line)
                return [(('it', ('vec', new), ts[0][2]), x) for _, x in r]
            if len(ts) == 3 and ts[1][0] == 'call' and ts[1][2] is not None:
                src = ts[1][2]
                pos = ts[0]
                if pos[0] == 'it' and pos[1] == o:
                    items = src[1] if src[0] == 'vec' else (('each', ('index', src, ('iv', 0, ('const', 0), None)), src),)
                    new = o[1][:pos[2]] + items + o[1][pos[2]:]
                    r = self.assign(e[2], ('vec', new), '=', s, fr, line)
                    return [(('void',), x) for _, x in r]
                items = src[1] if src[0] == 'vec' else (('each', ('index', src, ('iv', 0, ('const', 0), None)), src),)
                atbegin = pos[0] == 'call' and pos[1].endswith('begin') and o[1]
                new = (items + o[1]) if atbegin else (o[1] + items)
                r = self.assign(e[2], ('vec', new), '=', s, fr, line)
                return [(('void',), x) for _, x in r]
            if len(ts) == 2 and ts[0][0] == 'it' and ts[0][1] == o and not self.loopdepth:
                new = ('vec', o[1][:ts[0][2]] + (ts[1],) + o[1][ts[0][2]:])
                r = self.assign(e[2], new, '=', s, fr, line)
                return [(('it', new, ts[0][2]), x) for _, x in r]
            r = self.assign(e[2], ('unk', 'inserted', o), '=', s, fr, line)
            return [(('void',), x) for _, x in r]
        if self.conc and cls.startswith('std::vector<') and o[0] == 'vec' and e[2] and not self.loopdepth and \
                all(x[0] != 'each' for x in o[1]):
            new = None
            if name == 'resize' and ts and ts[0][0] == 'const':
                el = decl.cls[12:].split(',')[0]
                fill = ts[1] if len(ts) > 1 else (('null',) if el.endswith('*') else self.default_value(el))
                new = o[1][:ts[0][1]] + (fill,) * (ts[0][1] - len(o[1]))
            elif name == 'pop_back':
                new = o[1][:-1]
            elif name == 'clear':
                new = ()
            elif name == 'erase' and ts and all(x[0] == 'it' for x in ts):
                new = o[1][:ts[0][2]] + o[1][(ts[1][2] if len(ts) > 1 else ts[0][2] + 1):]
            elif name == 'insert' and len(ts) == 2 and ts[0][0] == 'it':
                new = o[1][:ts[0][2]] + (ts[1],) + o[1][ts[0][2]:]
            elif name == 'reserve':
                return [(('void',), s)]
            if new is not None:
                r = self.assign(e[2], ('vec', new), '=', s, fr, line)
                return [(('it', ('vec', new), ts[0][2]) if ts and ts[0][0] == 'it' else ('void',), x) for _, x in r]
        if name in ('clear',) and cls.startswith('std::vector<') and e[2] and e[2][0] == 'var':
            s = self.emit('call', decl, o, ts, line, s, fr, node=e)
            r = self.assign(e[2], ('vec', ()), '=', s, fr, line)
            return [(('void',), x) for _, x in r]
        if o[0] == 'pair' and name in ('operator->', 'operator*') and not ts:
            return [(o, s)]
        if cls.startswith(SETS):
            r = self.set_member(decl, o, ts, s, fr, line, e)
            if r is not None:
                return r
        m = map_literal(o) if cls.startswith(('std::unordered_map<', 'std::map<')) else None
        if m is not None:
            if name in ('end', 'cend'):
                return [(('mapend',), s)]
            if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign') and not self.loopdepth and e[2] and e[2][0] == 'var':
                kv = ts
                if len(kv) == 1 and core(kv[0])[0] == 'ctor' and len(core(kv[0])[2]) == 2:
                    kv = core(kv[0])[2]
                if len(kv) == 2 and (kv[0] in m or ground(kv[0]) and all(ground(x) for x in m)):
                    new = kv[0] not in m
                    if new or name == 'insert_or_assign':
                        s = s.fork()
                        s.env[self.varkey(e[2], s, fr)] = ('map', tuple({**m, kv[0]: kv[1]}.items()))
                    return [(('inserted', ('pair', kv[0], kv[1] if new else m[kv[0]]), ('const', new)), s)]
            if name in ('find', 'operator[]', 'at', 'count', 'contains') and len(ts) == 1:
                k = self.const_of(ts[0], s)
                if k is not None:
                    v = m.get(k)
                    if name == 'find':
                        return [(('mapend',) if v is None else ('pair', k, v), s)]
                    if name in ('count', 'contains'):
                        return [(('const', 0 if v is None else 1), s)]
                    if v is not None:
                        return [(v, s)]
                    return [(('ctor', 'missing-map-entry', (k,)), s)]
        if name in ('operator[]', 'at') and len(ts) == 1:
            s = self.emit('call', decl, o, ts, line, s, fr, node=e)
            return [(self.index(o, ts[0]), s)]
        if name == 'front' and cls.startswith('std::vector<'):
            return [(self.index(o, ('const', 0)), s)]
        if name == 'back' and o[0] == 'vec' and o[1] and o[1][-1][0] != 'each':
            return [(o[1][-1], s)]
        if name == 'size' and o[0] == 'vec' and all(x[0] != 'each' for x in o[1]):
            return [(('const', len(o[1])), s)]
        if name == 'empty' and o[0] == 'vec' and all(x[0] != 'each' for x in o[1]):
            return [(('const', len(o[1]) == 0), s)]
        if name == 'operator=' and len(ts) == 1 and e[2]:
            return self.assign(e[2], ts[0], '=', s, fr, line)
        return None

    def set_member(self, decl, o, ts, s, fr, line, e):
        """local sets of distinguishable elements"""
        name = decl.name
        if o[0] == 'ctor' and o[1].startswith(SETS):
            items = o[2]
            if items and items[0][0] == 'vec':
                items = items[0][1]
        else:
            return None
        if not all(ground(x) for x in items):
            return None
        x = ts[0] if len(ts) == 1 else None
        if name in ('insert', 'emplace', 'Insert') and x is not None and ground(x) and e[2] and e[2][0] in ('var', 'mem') \
                and not self.loopdepth:
            s = self.emit('call', decl, o, ts, line, s, fr, node=e)
            new = x not in items
            if new:
                s = self.assign(e[2], ('ctor', o[1], items + (x,)), '=', s, fr, line)[0][1]
            return [(('const', new) if name == 'Insert' else ('inserted', x, ('const', new)), s)]
        if name in ('erase', 'Remove') and x is not None and ground(x) and e[2] and e[2][0] in ('var', 'mem') and not self.loopdepth:
            s = self.emit('call', decl, o, ts, line, s, fr, node=e)
            s = self.assign(e[2], ('ctor', o[1], tuple(y for y in items if y != x)), '=', s, fr, line)[0][1]
            return [(('const', x in items), s)]
        if self.conc and name in ('begin', 'cbegin') and not ts:
            return [(('it', ('vec', items[::-1]), 0), s)]       # in no order a program may rely on
        if self.conc and name == 'Items' and not ts:
            return [(('vec', items[::-1]), s)]
        if name in ('count', 'contains', 'Contains') and x is not None and ground(x):
            return [(('const', x in items), s)]
        if name == 'find' and x is not None and ground(x):
            return [(('setit', x) if x in items else ('setend',), s)]
        if name in ('end', 'cend'):
            return [(('setend',), s)]
        if name in ('size', 'Size') and not ts:
            return [(('const', len(items)), s)]
        if name in ('empty', 'IsEmpty') and not ts:
            return [(('const', not items), s)]
        return None

    def default_inline(self, decl, f, fr):
        root = fr
        while root.parent is not None:
            root = root.parent
        if f.file == root.func.file:
            return True
        return is_accessor(f)

    def inline_target(self, decl, o, fr, e, orig):
        if decl.q in self.opaque:
            return None
        if fr.depth >= self.MAXDEPTH:
            return None
        if decl.virt and decl is orig and len(e) <= 5:
            # a virtual call: only when there is no override below
            if not self.devirtual(decl):
                return None
        f = self.P.body_of(decl)
        if f is None or f.dependent:
            return None
        p, n = fr, self.RECURSION
        while p is not None:
            n -= p.func is f
            if n < 0:
                return None
            p = p.parent
        if self.policy is not None:
            v = self.policy(decl, f, fr, o)
            if v is not None:
                return f if v else None
        return f if self.default_inline(decl, f, fr) else None

    def devirtual(self, decl):
        subs = self.P.subclasses(decl.cls) if decl.cls in self.P.classes else []
        for c in subs:
            for m in self.P.classes[c].methods:
                if m[1] == decl.name:
                    return False
        return True

    def inline(self, f, decl, o, ts, s, fr, e):
        self.inlined.add(f.key)
        nf = self.new_frame(f, core(o) if o is not None else None, fr)
        s2 = s.fork()
        ps = split_params(decl.sig)
        for i, p in enumerate(f.params):
            ty = p[2]
            if i < len(e[3]) and ty.endswith('&') and not ty.endswith('&&') \
                    and not ty.startswith('const ') and e[3][i] and e[3][i][0] == 'var':
                s2.env[(nf.fid, p[0])] = ('alias', self.varkey(e[3][i], s2, fr))
            elif i < len(ts):
                s2.env[(nf.fid, p[0])] = ts[i]
        saved = self.loopdepth
        exits = self.run_frame(nf, s2)
        self.loopdepth = saved
        out = []
        for k, t, x in exits:
            if k == 'throw':
                continue
            # drop the callee's variables
            env = {a: b for a, b in x.env.items() if a[0] != nf.fid}
            x = State(env, x.facts, x.user)
            out.append((t if t is not None else ('void',), x))
        if not out:
            return [(('noreturn',), s)]
        # merge duplicates
        seen, res = set(), []
        for t, x in out:
            k = (t, x.facts, x.user, frozenset(x.env.items()))
            if k not in seen:
                seen.add(k)
                res.append((t, x))
        return self.limit_pairs(res, self.CAP)


SETS = ('std::set<', 'std::unordered_set<', 'jlm::util::HashSet<')
GROUND = {'bb', 'casevalue', 'port', 'node', 'reg'}


def ground(t):
    """denotes one definite object of a scenario, distinct from every other such term"""
    if t[0] in ('enum', 'const', 'atom', 'gnode') or t[0] in ('out', 'in') and t[1][0] == 'gnode':
        return True
    return t[0] in GROUND and all(ground(x) for x in t[1:] if type(x) is tuple)


def pointee(t):
    """a pointer into a sequence of known elements stands for the element"""
    if t[0] == 'it' and t[1][0] == 'vec' and all(x[0] != 'each' for x in t[1][1]):
        return t[1][1][t[2]] if 0 <= t[2] < len(t[1][1]) else ('unk', 'past-the-end')
    return t


def map_literal(t):
    """{key: value} of a map constructed from an initializer list of constants"""
    if t[0] == 'map':
        return dict(t[1])
    if t[0] == 'ctor' and not t[2] and t[1].startswith(('std::unordered_map<', 'std::map<')):
        return {}
    if t[0] != 'ctor' or not t[2] or \
            not t[1].startswith(('std::unordered_map<', 'std::map<', 'jlm::util::BijectiveMap<')):
        return None
    if t[2][0][0] != 'vec':
        return None
    m = {}
    for p in t[2][0][1]:
        if p[0] != 'ctor' or len(p[2]) != 2:
            return None
        m.setdefault(p[2][0], p[2][1])
    return m


def clsname(ty):
    ty = ty.strip()
    while True:
        n = ty
        for suf in ('*', '&', ' const'):
            if n.endswith(suf):
                n = n[:-len(suf)].strip()
        if n.startswith('const '):
            n = n[6:]
        if n == ty:
            return n
        ty = n


_pcache = {}


def split_params(sig):
    r = _pcache.get(sig)
    if r is not None:
        return r
    inner = sig[1:sig.rindex(')')]
    out, depth, cur = [], 0, ''
    for ch in inner:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    _pcache[sig] = out
    return out


def is_accessor(f):
    """a body that is a single return (asserts allowed)"""
    a = getattr(f, '_acc', None)
    if a is not None:
        return a
    b = f.body
    r = False
    if b and b[0] == 'block':
        st = [x for x in b[1] if not is_assert(x)]
        if len(st) == 1 and st[0][0] == 'ret':
            r = True
        elif len(st) == 2 and st[0][0] == 'decls' and st[1][0] == 'ret':
            r = True
    f._acc = r
    return r


def is_assert(st):
    if st[0] != 'expr' or not st[2]:
        return False
    e = st[2]
    return e[0] == 'cond' and any(x[0] == 'call' and x[1].nr for x in walk(e[3]))
