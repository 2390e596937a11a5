"""May-write effect summaries over the resolved call graph.

writes(P) is the set of functions (keys) that may modify an object field: an assignment or ++/--
on a member, a call of a non-const member function of a by-value std container held in a member,
`delete`, or a call of a project function that does one of these."""
from .facts import walk
from .engine import clsname

MUTSTD = {'push_back', 'emplace_back', 'insert', 'erase', 'clear', 'resize', 'pop_back', 'emplace', 'operator=',
          'reset', 'swap', 'assign', 'push_front', 'pop_front', 'try_emplace', 'reserve', 'operator++',
          'operator--', 'operator+=', 'operator-=', 'release', 'merge', 'splice'}


def value_locals(f):
    out = set()
    for x in walk(f.body):
        if x[0] == 'decls':
            for d in x[1]:
                ty = d[3]
                if type(ty) is str and not ty.endswith(('*', '&', '* const')) and 'iterator' not in ty.lower():
                    out.add(d[1])
    for p in f.params:
        if not p[2].endswith(('*', '&')):
            out.add(p[0])
    return out


def rooted_local(t, loc):
    while t:
        if t[0] in ('mem', 'idx') and t[1]:
            t = t[1]
        elif t[0] == 'call' and t[2] and (t[1].cls or '').startswith('std::') \
                and t[1].name in ('operator[]', 'at', 'back', 'front'):
            t = t[2]
        else:
            break
    return bool(t) and t[0] == 'var' and t[1] in loc


def local_write(f):
    loc = value_locals(f)
    for x in walk(f.body):
        if x[0] == 'asg':
            t = x[2]
            while t and t[0] == 'idx':
                t = t[1]
            if rooted_local(t, loc):
                continue
            if t and t[0] in ('mem', 'call') or (t and t[0] == 'un' and t[1] == '*'):
                return True
        elif x[0] == 'un' and x[1] in ('++', '--', 'p++', 'p--') and x[2] and x[2][0] == 'mem':
            return True
        elif x[0] == 'call' and x[2] and x[1].cls and x[1].cls.startswith('std::') and x[1].name in MUTSTD:
            o = x[2]
            while o and o[0] in ('idx',):
                o = o[1]
            if rooted_local(o, loc):
                continue
            if o and o[0] in ('mem',):
                return True
            if o and o[0] == 'call' and not (o[1].cls or '').startswith('std::'):
                return True
        elif x[0] == 'del':
            return True
    return False


def writers(P):
    r = getattr(P, '_writers', None)
    if r is not None:
        return r
    callees = {}
    w = set()
    for f in P.funcs.values():
        if not f.body:
            continue
        if f.decl.name in ('<ctor>', '<dtor>'):
            continue
        if local_write(f):
            w.add(f.key)
        cs = set()
        for x in walk(f.body):
            if x[0] == 'call':
                d = x[1]
                cs.add(d.key)
                if d.virt:
                    for c in P.subclasses(d.cls):
                        for m in P.classes[c].methods:
                            if m[1] == d.name:
                                cs.add(m[0].key)
        callees[f.key] = cs
    rev = {}
    for a, cs in callees.items():
        for c in cs:
            rev.setdefault(c, []).append(a)
    st = list(w)
    while st:
        k = st.pop()
        for a in rev.get(k, []):
            if a not in w:
                w.add(a)
                st.append(a)
    P._writers = w
    return w
