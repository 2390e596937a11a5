"""Scenario-based abstract interpretation: a converter function is interpreted with the discrete facts of a
scenario fixed (which instruction, which flags, how many list elements); the terms it builds are normalised and
compared with the terms the scenario must produce."""
from .engine import Interp, core, subterms, contains, alts
from . import absllvm

TRACE = ('TRACE',)


def trace(s):
    return s.env.get(TRACE, ('vec', ()))[1]


def add_trace(s, item):
    s = s.fork()
    s.env[TRACE] = ('vec', trace(s) + (item,))
    return s


def show(t):
    if type(t) is not tuple or not t:
        return repr(t)
    k = t[0]
    if type(k) is tuple:
        return '(' + ', '.join(show(x) for x in t) + ')'
    if k == 'vec':
        return '{' + ', '.join(show(x) for x in t[1]) + '}'
    if k == 'tac':
        return '%s<-%s' % (show(t[1]), show(t[2]))
    if k == 'ctor':
        return t[1].rsplit('::', 1)[-1] + '(' + ', '.join(show(x) for x in t[2]) + ')'
    if k in ('const', 'str', 'atom'):
        return repr(t[1])
    if k == 'enum':
        return t[1].split('::', 1)[-1]
    if k == 'call':
        return '%s%s(%s)' % (show(t[2]) + '.' if t[2] else '', t[1].rsplit('::', 1)[-1], ', '.join(show(x) for x in t[3]))
    if k == 'll':
        return '%s.%s(%s)' % (show(t[2]), t[1], ', '.join(show(x) for x in t[3:]))
    if k == 'phi':
        return 'phi[' + ' | '.join(sorted(show(x) for x in t[1])) + ']'
    if len(t) == 1:
        return k
    if k == 'inst':
        return 'I'
    return k + '(' + ', '.join(show(x) if type(x) is tuple else str(x) for x in t[1:]) + ')'


def rewrite(t, rule, memo=None):
    """bottom-up rewriting of a term"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if type(t) is frozenset:
        n = frozenset(rewrite(x, rule, memo) for x in t)
    elif type(t) is tuple:
        n = tuple(rewrite(x, rule, memo) if type(x) in (tuple, frozenset) else x for x in t)
        if n and type(n[0]) is str:
            if n[0] == 'phi' and len(n[1]) == 1:
                n = next(iter(n[1]))
            n = rule(n)
    else:
        n = t
    memo[t] = n
    return n
