"""Fact base: drives the clang-based extractor over /repo's current sources and offers a resolved
program model (classes, enums, globals, functions with expression trees).

Nothing of /repo is executed.  Extraction results are cached per translation unit, keyed by the
contents of every /repo file in the unit's include closure and by the extractor's own source, so a
stale result can never be used."""
import glob, hashlib, json, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JLM_REPO', '/repo')
CACHE = os.path.join(VERIF, 'cache')
TOOLSRC = os.path.join(VERIF, 'tool', 'extract.cpp')
FLAGS = ['-std=c++17', '-I.', '-Itests', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
         '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
         '-DJLM_ENABLE_ASSERTS', '-I' + os.path.join(VERIF, 'tool', 'include'), '-w', '-ferror-limit=3']
TESTRE = re.compile(r'Tests\.(cpp|hpp)$|/Test[A-Z]\w*\.(cpp|hpp)$|/tests?/')
# need headers (CIRCT / MLIR) that are not installed: no unit of the build contains them
UNBUILT = re.compile(r'^jlm/mlir/|FirrtlToVerilogConverter|RhlsToFirrtlConverter|^tools/jlm-hls/')


class AnalysisBroken(Exception):
    pass


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def tool_binary():
    src = _read(TOOLSRC)
    h = hashlib.sha256(src).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'extract-' + h)
    if os.path.exists(out):
        return out, h
    with open(os.path.join(CACHE, 'build.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out, h
        cmd = ['clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include',
               '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
               '-D__STDC_LIMIT_MACROS', TOOLSRC, '-o', out + '.tmp',
               '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18',
               '-Wl,-rpath,/usr/lib/llvm-18/lib']
        env = dict(os.environ, CCACHE_DISABLE='1')
        r = subprocess.run(cmd, capture_output=True, text=True, env=env)
        if r.returncode:
            raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
        os.rename(out + '.tmp', out)
    return out, h


class Sources:
    """the source files and the (textual) include graph of /repo"""

    def __init__(self):
        self.units, self.headers = [], []
        for top in ('jlm', 'tools'):
            for d, ds, fs in os.walk(os.path.join(REPO, top)):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.relpath(os.path.join(d, f), REPO)
                    if TESTRE.search('/' + p) or UNBUILT.search(p):
                        continue
                    if f.endswith('.cpp'):
                        self.units.append(p)
                    elif f.endswith('.hpp') or f.endswith('.h'):
                        self.headers.append(p)
        self._inc, self._hash, self._closure = {}, {}, {}
        self.owner = {}
        us = set(self.units)
        for h in self.headers:
            c = re.sub(r'\.(hpp|h)$', '.cpp', h)
            if c in us and h in self.closure(c):
                self.owner[h] = c
        for u in self.units:
            for h in self.closure(u):
                if h.endswith('.cpp') or h in self.owner or h not in set(self.headers):
                    continue
                self.owner[h] = u
        for h, u in OWNERS.items():
            if h in self.headers and u in us and h in self.closure(u):
                self.owner[h] = u
        self.orphans = [h for h in self.headers if h not in self.owner]

    def includes(self, p):
        if p not in self._inc:
            try:
                data = _read(os.path.join(REPO, p))
            except OSError:
                data = b''
            self._hash[p] = hashlib.sha256(data).hexdigest()
            out = []
            for m in re.finditer(rb'^[ \t]*#[ \t]*include[ \t]*[<"]([^">]+)[">]', data, re.M):
                q = m.group(1).decode()
                for cand in (q, os.path.normpath(os.path.join(os.path.dirname(p), q)), 'tests/' + q):
                    if os.path.isfile(os.path.join(REPO, cand)):
                        out.append(cand)
                        break
            self._inc[p] = out
        return self._inc[p]

    def closure(self, p):
        if p not in self._closure:
            seen, st = {p}, [p]
            while st:
                for q in self.includes(st.pop()):
                    if q not in seen:
                        seen.add(q)
                        st.append(q)
            self._closure[p] = seen
        return self._closure[p]

    def key(self, u, toolhash):
        h = hashlib.sha256()
        h.update((toolhash + '|' + u + '|' + ' '.join(FLAGS) + '|' + ','.join(self.wanted(u))).encode())
        for p in sorted(self.closure(u)):
            self.includes(p)
            h.update((p + ':' + self._hash[p] + '\n').encode())
        return h.hexdigest()[:32]

    def wanted(self, u):
        return [u] + sorted(h for h, o in self.owner.items() if o == u)


# headers whose templates are best seen instantiated: the unit that owns them
OWNERS = {
    'jlm/util/BijectiveMap.hpp': 'jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp',
    'jlm/util/HashSet.hpp': 'jlm/llvm/opt/alias-analyses/Andersen.cpp',
    'jlm/util/Math.hpp': 'jlm/llvm/ir/types.cpp',
    'jlm/util/Worklist.hpp': 'jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp',
}


def extract(units, verbose=False):
    """returns {unit: path of fact file}, extracting what is not cached"""
    tool, th = tool_binary()
    S = sources()
    os.makedirs(os.path.join(CACHE, 'tu'), exist_ok=True)
    todo, res = [], {}
    for u in units:
        out = os.path.join(CACHE, 'tu', S.key(u, th) + '.json')
        res[u] = out
        if not os.path.exists(out):
            todo.append(u)
    resdir = '/usr/lib/llvm-18/lib/clang/18'

    def one(u):
        out = res[u]
        tmp = out + '.%d.tmp' % os.getpid()
        cmd = [tool, REPO, tmp, u, ','.join(S.wanted(u)), '--'] + FLAGS
        if os.path.isdir(resdir):
            cmd += ['-resource-dir', resdir]
        r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            return u, r.stderr[-1500:]
        os.rename(tmp, out)
        return u, None
    # expensive units first
    todo.sort(key=lambda u: -len(S.closure(u)))
    with ThreadPoolExecutor(8) as ex:
        for u, err in ex.map(one, todo):
            if err is not None:
                raise AnalysisBroken('cannot parse %s: %s' % (u, err))
            if verbose:
                print('extracted', u)
    return res, len(todo)


_S = None


def sources():
    global _S
    if _S is None:
        _S = Sources()
    return _S


class Decl:
    """a function as referenced from a unit"""
    __slots__ = ('q', 'sig', 'ret', 'cls', 'virt', 'static', 'nr', 'copy', 'dflt', 'deleted', 'ta',
                 'file', 'line', 'inst', 'name', 'key', 'variadic')

    def __init__(self, d):
        self.q, self.sig, self.ret = d['q'], d['t'], d['r']
        self.cls = d.get('c')
        self.virt, self.static, self.nr = 'v' in d, 's' in d, 'nr' in d
        self.copy, self.dflt, self.deleted = 'cp' in d, 'df' in d, 'dl' in d
        self.variadic = 'va' in d
        self.ta = d.get('ta') or []
        self.file, self.line, self.inst = d['f'], d['l'], 'in' in d
        q = self.q
        if self.cls and q.startswith(self.cls + '::'):
            self.name = q[len(self.cls) + 2:]
        else:
            self.name = q.rsplit('::', 1)[-1]
        self.key = (self.q, self.sig, tuple(self.ta))

    def __repr__(self):
        return '<%s%s>' % (self.q, self.sig)


class Func:
    """a function definition"""

    def __init__(self, unit, rec):
        self.unit, self.rec = unit, rec
        self.decl = unit.decls[rec['i']]
        self.q, self.sig, self.cls, self.name = self.decl.q, self.decl.sig, self.decl.cls, self.decl.name
        self.key = self.decl.key
        self.file, self.line, self.end = rec['file'], rec['line'], rec['end']
        self.params = rec['p']          # [id, name, type]
        self.dependent = 'dep' in rec
        self._done = False

    def _resolve(self):
        if not self._done:
            self._body = self.unit.resolve(self.rec['b'])
            self._inits = self.unit.resolve(self.rec.get('inits') or [])
            self._done = True

    @property
    def body(self):
        self._resolve()
        return self._body

    @property
    def inits(self):
        self._resolve()
        return self._inits

    def where(self, line=None):
        return '%s:%d' % (self.file, line or self.line)

    def __repr__(self):
        return '<Func %s %s:%d>' % (self.q, self.file, self.line)


class Unit:
    def __init__(self, name, path):
        self.name = name
        with open(path) as f:
            d = json.load(f)
        self.decls = [Decl(x) for x in d['fns']]
        self.functions = [Func(self, r) for r in d['functions']]
        self.classes, self.enums, self.globals = d['classes'], d['enums'], d['globals']
        for g in self.globals:
            g['init'] = self.resolve(g['init'])
        for c in self.classes:
            c['methods'] = [[self.decls[m[0]]] + m[1:] for m in c['methods']]
            for x in c['fields']:
                if len(x) > 4:
                    self.resolve(x[4])

    def resolve(self, n):
        """replace function ids by Decl objects, in place, iteratively"""
        st = [n]
        decls = self.decls
        while st:
            x = st.pop()
            if type(x) is list and x:
                k = x[0]
                if (k == 'call' or k == 'fn' or k == 'ctor') and type(x[1]) is int:
                    x[1] = decls[x[1]]
                for y in x:
                    if type(y) is list:
                        st.append(y)
        return n


class Cls:
    def __init__(self, d):
        self.name, self.file, self.line = d['n'], d['file'], d['line']
        self.bases = d['bases']
        self.fields = d['fields']     # [name, type, line, mutable]
        self.methods = d['methods']   # [Decl, name, virt, pure, implicit, userprovided, access]
        self.abstract = 'abs' in d
        self.dependent = 'dep' in d
        self.final = 'final' in d
        self.tn, self.ta = d.get('tn'), d.get('ta') or []

    def __repr__(self):
        return '<Cls %s>' % self.name


SENTINEL = re.compile(r'^(First|Last|FIRST_|LAST_|BAD_)|(Begin|End)$')


class Program:
    def __init__(self, units, verbose=False):
        S = sources()
        self.unit_names = sorted(set(units))
        paths, self.extracted = extract(self.unit_names, verbose)
        self.units = [Unit(u, paths[u]) for u in self.unit_names]
        self.funcs, self.classes, self.enums, self.globals = {}, {}, {}, {}
        self.by_q = {}
        for u in self.units:
            for f in u.functions:
                if f.key not in self.funcs or (self.funcs[f.key].rec['b'] in (0, None) and f.rec['b']):
                    self.funcs[f.key] = f
            for c in u.classes:
                self.classes.setdefault(c['n'], Cls(c))
            for e in u.enums:
                self.enums.setdefault(e['n'], e)
            for g in u.globals:
                self.globals.setdefault(g['n'], g)
        for f in self.funcs.values():
            self.by_q.setdefault(f.q, []).append(f)
        # enumerators that share a value (FirstEnumAttr = AllocAlign) are one constant
        self.canon, self.enumvalue = {}, {}
        for e in self.enums.values():
            best = {}
            for n, v in e['v']:
                self.enumvalue[n] = v
                if v not in best or SENTINEL.search(best[v].rsplit('::', 1)[-1]) and \
                        not SENTINEL.search(n.rsplit('::', 1)[-1]):
                    best[v] = n
            for n, v in e['v']:
                if best[v] != n:
                    self.canon[n] = best[v]
        self.derived = {}
        for c in self.classes.values():
            for b in c.bases:
                self.derived.setdefault(b, []).append(c.name)
        # patterns by location, for instantiations without a body here
        self.by_loc = {}
        for f in self.funcs.values():
            self.by_loc.setdefault((f.file, f.line), []).append(f)

    # ---- lookups
    def fn(self, q, n=None, sig=None):
        """the function(s) with qualified name q; exactly one unless n is given"""
        fs = [f for f in self.by_q.get(q, []) if sig is None or sig in f.sig]
        if n is None:
            if len(fs) != 1:
                raise AnalysisBroken('%d definitions of %s found' % (len(fs), q))
            return fs[0]
        if len(fs) < n:
            raise AnalysisBroken('%d definitions of %s found, expected >= %d' % (len(fs), q, n))
        return fs

    def fns_in(self, *prefixes):
        return [f for f in self.funcs.values() if f.file.startswith(prefixes)]

    def body_of(self, decl):
        """definition for a referenced function, or None"""
        f = self.funcs.get(decl.key)
        if f is not None and f.body:
            return f
        if decl.inst:
            # another instantiation of the same pattern, or the pattern
            c = [g for g in self.by_loc.get((decl.file, decl.line), [])
                 if g.body and g.name == decl.name]
            if c:
                c.sort(key=lambda g: g.dependent)
                return c[0]
        return None

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken('class %s not found' % name)
        return c

    def ancestors(self, name):
        out, st = [], [name]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.append(x)
            c = self.classes.get(x)
            if c:
                st.extend(c.bases)
        return out

    def is_a(self, name, base):
        return base in self.ancestors(name)

    def subclasses(self, base):
        out, st = [], [base]
        seen = {base}
        while st:
            for d in self.derived.get(st.pop(), []):
                if d not in seen:
                    seen.add(d)
                    out.append(d)
                    st.append(d)
        return sorted(out)

    def all_fields(self, name):
        out = []
        for a in self.ancestors(name):
            c = self.classes.get(a)
            if c:
                out += [(a, f) for f in c.fields]
        return out

    def find_method(self, cls, name, nparams=None):
        """the method a call obj.name() on dynamic type cls resolves to: (Cls, Decl), own class first"""
        c = self.classes.get(cls)
        if c is None:
            return None
        for m in c.methods:
            if m[1] == name and not m[0].deleted:
                if nparams is None or nparams == count_params(m[0].sig):
                    return c, m[0]
        for b in c.bases:
            r = self.find_method(b, name, nparams)
            if r:
                return r
        return None


def count_params(sig):
    inner = sig[1:sig.rindex(')')]
    if not inner:
        return 0
    depth, n = 0, 1
    for ch in inner:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        elif ch == ',' and depth == 0:
            n += 1
    return n


def walk(n):
    """all nodes (lists with a string head) below n, pre-order"""
    st = [n]
    while st:
        x = st.pop()
        if type(x) is list:
            if x and type(x[0]) is str:
                yield x
            for y in reversed(x):
                if type(y) is list:
                    st.append(y)


def calls(n):
    for x in walk(n):
        if x[0] == 'call':
            yield x


if __name__ == '__main__':
    import time
    t = time.time()
    S = sources()
    print(len(S.units), 'units', len(S.headers), 'headers', len(S.orphans), 'orphan headers', S.orphans)
    P = Program(S.units, verbose='-v' in sys.argv)
    print('extracted', P.extracted, 'functions', len(P.funcs), 'classes', len(P.classes),
          'enums', len(P.enums), '%.1fs' % (time.time() - t))
