"""Standard algorithms over sequences whose elements are known one by one."""


def core(t):
    while t[0] == 'phi' and len(t[1]) == 1:
        t = t[1][0]
    return t


def literal(t):
    return t[0] == 'it' and t[1][0] == 'vec' and all(x[0] != 'each' for x in t[1][1])


def bools(b, s):
    return [(('const', b), s)]


def call(ip, q, ts, s, fr, line, e):
    """results of a std algorithm, or None if it is not modelled for these arguments"""
    if not q.startswith('std::') or not ts or ts[0][0] != 'it':
        return None
    n = q[5:]
    if n in ('next', 'prev') and literal(ts[0]) and (len(ts) == 1 or ts[1][0] == 'const'):
        d = ts[1][1] if len(ts) > 1 else 1
        return [(('it', ts[0][1], ts[0][2] + (d if n == 'next' else -d)), s)]
    if len(ts) < 2 or not literal(ts[0]) or ts[1][0] != 'it' or ts[0][1] != ts[1][1]:
        return None
    if n == 'distance':
        return [(('const', ts[1][2] - ts[0][2]), s)]
    base = ts[0][1]
    lo, hi = ts[0][2], ts[1][2]
    items = base[1][lo:hi]
    f = ts[-1]

    def pred(x, s1):
        if f[0] == 'lambda':
            rs = ip.call_lambda(f, (x,), s1, fr, line)
        else:
            return None
        yes, no = [], []
        for t, s2 in rs:
            a, b = ip.split(t, s2)
            yes += a
            no += b
        return yes, no
    if n in ('all_of', 'any_of', 'none_of', 'find_if', 'find_if_not', 'count_if') and f[0] == 'lambda':
        out, states = [], [(s, 0)]
        for i, x in enumerate(items):
            nxt = []
            for s1, c in states:
                yes, no = pred(x, s1)
                if n == 'count_if':
                    nxt += [(y, c + 1) for y in yes] + [(y, c) for y in no]
                    continue
                stop, go = (no, yes) if n in ('all_of', 'find_if_not') else (yes, no)
                for y in stop:
                    out.append((('it', base, lo + i) if n[:4] == 'find' else ('const', n == 'any_of'), y))
                nxt += [(y, 0) for y in go]
            states = nxt
        for s1, c in states:
            out.append((('const', c) if n == 'count_if' else ('it', base, hi) if n[:4] == 'find' else ('const', n != 'any_of'), s1))
        return ip.limit_pairs(out, ip.CAP)
    if n in ('find', 'count') and len(ts) == 3:
        out, states = [], [(s, 0)]
        for i, x in enumerate(items):
            nxt = []
            for s1, c in states:
                yes, no = ip.split(ip.binop('==', x, f), s1)
                if n == 'count':
                    nxt += [(y, c + 1) for y in yes]
                else:
                    out += [(('it', base, lo + i), y) for y in yes]
                nxt += [(y, c) for y in no]
            states = nxt
        for s1, c in states:
            out.append((('it', base, hi) if n == 'find' else ('const', c), s1))
        return ip.limit_pairs(out, ip.CAP)
    if n == 'for_each' and f[0] == 'lambda':
        states = [s]
        for x in items:
            states = [y for s1 in states for _, y in ip.call_lambda(f, (x,), s1, fr, line)]
        return [(f, y) for y in states]
    if n == 'accumulate' and len(ts) in (3, 4):
        states = [(ts[2], s)]
        for x in items:
            states = [z for a, s1 in states for z in
                      (ip.call_lambda(f, (a, x), s1, fr, line) if len(ts) == 4 and f[0] == 'lambda' else
                       [(ip.binop('+', a, x), s1)])]
        return states
    if n in ('transform', 'copy', 'copy_if', 'move') and len(e[3]) >= 3:
        res = [((), s)]
        for x in items:
            nxt = []
            for got, s1 in res:
                if n == 'transform' and f[0] == 'lambda' and len(ts) == 4:
                    nxt += [(got + (t,), y) for t, y in ip.call_lambda(f, (x,), s1, fr, line)]
                elif n in ('copy', 'move') and len(ts) == 3:
                    nxt.append((got + (x,), s1))
                elif n == 'copy_if' and f[0] == 'lambda':
                    yes, no = pred(x, s1)
                    nxt += [(got + (x,), y) for y in yes] + [(got, y) for y in no]
                else:
                    return None
            res = nxt
        dst = e[3][2]
        while dst and dst[0] in ('cast', 'ctor') and dst[0] == 'ctor' and len(dst[3]) == 1:
            dst = dst[3][0]
        out = []
        for got, s1 in res:
            if dst and dst[0] == 'call' and dst[1].q == 'std::back_inserter' and dst[3]:
                var = dst[3][0]
                cur = ip.ev(var, s1, fr)
                if len(cur) != 1 or core(cur[0][0])[0] != 'vec':
                    return None
                new = ('vec', core(cur[0][0])[1] + got)
            elif dst and dst[0] == 'call' and dst[1].name == 'begin' and dst[2] and literal(ts[2]):
                var = dst[2]
                old = ts[2][1][1]
                k = ts[2][2]
                new = ('vec', old[:k] + got + old[k + len(got):])
            else:
                return None
            out += [(('it', new, len(new[1])), y) for _, y in ip.assign(var, new, '=', s1, fr, line)]
        return out
    if n == 'reverse' and len(ts) == 2:
        var = e[3][0]
        while var and var[0] == 'ctor' and len(var[3]) == 1:
            var = var[3][0]
        if var and var[0] == 'call' and var[1].name == 'begin' and var[2]:
            new = ('vec', base[1][:lo] + items[::-1] + base[1][hi:])
            return [(('void',), y) for _, y in ip.assign(var[2], new, '=', s, fr, line)]
    return None
