"""Builds the fact base: runs cmake for the real compile flags, runs the libTooling exporter on every library and
example translation unit of /repo's current working tree and merges the result into one resolved program."""
import json, os, subprocess, sys, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'cxxfacts')


class AnalysisError(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def ensure_tool():
    src = os.path.join(VERIF, 'extractor', 'cxxfacts.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    tmp = TOOL + '.%d' % os.getpid()
    r = subprocess.run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                        '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('cannot build the fact extractor: ' + r.stderr[-2000:])
    os.replace(tmp, TOOL)


class Ty:
    __slots__ = ('s', 'k', 'const', 'w', 'u', 'bool', 'ch', 'to', 'q', 'n', 'ta', 'repo', 'lam', 'enum', 'rv', 'fn', 'union')

    def __init__(self, s):
        self.s = s; self.k = 'other'; self.const = False; self.w = 0; self.u = False; self.bool = False; self.ch = False
        self.to = None; self.q = None; self.n = None; self.ta = None; self.repo = False; self.lam = None; self.enum = None
        self.rv = False; self.fn = False; self.union = False

    def __repr__(self):
        return 'Ty(%s)' % self.s

    def is_ptr(self):
        return self.k == 'ptr' or self.k == 'mptr' or self.k == 'nullptr'

    def rng(self):
        if self.bool:
            return (0, 1)
        if self.k == 'int':
            return (0, (1 << self.w) - 1) if self.u else (-(1 << (self.w - 1)), (1 << (self.w - 1)) - 1)
        return None

    def noref(self):
        return self.to if self.k == 'ref' else self


class Program:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.units = []
        self.root = None

    # -- class hierarchy ---------------------------------------------------------------------------------------
    def bases(self, q):
        r = self.records.get(q)
        return [b['q'] for b in r['bases']] if r else []

    def all_bases(self, q):
        out = []
        for b in self.bases(q):
            out.append(b); out.extend(self.all_bases(b))
        return out

    def derives(self, d, b):
        return d == b or b in self.all_bases(d)

    def find_override(self, cls, key):
        """most derived override of method `key` for dynamic class cls"""
        c = cls
        seen = [cls]
        while seen:
            c = seen.pop(0)
            r = self.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['key'] == key or self._overrides(m, key):
                    return m['key']
            seen.extend(b['q'] for b in r['bases'])
        return None

    def _overrides(self, m, key, depth=0):
        for k in m['over']:
            if k == key:
                return True
            f = self.method_by_key.get(k)
            if f and depth < 8 and self._overrides(f, key, depth + 1):
                return True
        return False

    def method(self, cls, name, np=None, **flags):
        """methods of class `cls` (nearest class first) called `name`"""
        todo = [cls]
        while todo:
            c = todo.pop(0)
            r = self.records.get(c)
            if r:
                ms = [m for m in r['methods'] if m['n'] == name and not m.get('deleted') and (np is None or m['np'] == np)]
                if ms:
                    return c, ms
                todo.extend(b['q'] for b in r['bases'])
        return None, []

    def special(self, cls, which):
        r = self.records.get(cls)
        for m in r['methods']:
            if which == 'copyctor' and m['kind'] == 'ctor' and m.get('copy') or \
               which == 'movector' and m['kind'] == 'ctor' and m.get('move') or \
               which == 'copyassign' and m.get('cassign') or which == 'moveassign' and m.get('massign') or \
               which == 'dtor' and m['kind'] == 'dtor':
                return m
        return None

    def fields(self, cls):
        r = self.records.get(cls)
        return r['fields'] if r else []


TYKEYS = {'t', 'vt', 'et', 'ct', 'ret', 'tt'}
TYLISTS = {'pt', 'path'}


def _merge_unit(P, J, unit):
    tj = J['types']
    local = []
    newt = []
    for o in tj:
        s = o['s'] if o else '?'
        t = P.types.get(s)
        if t is None:
            t = Ty(s); P.types[s] = t; newt.append((t, o))
        local.append(t)
    def T(i):
        return local[i] if isinstance(i, int) and i >= 0 else None
    for t, o in newt:
        if not o:
            continue
        t.k = o['k']; t.const = bool(o.get('c')); t.w = o.get('w', 0); t.u = bool(o.get('u')); t.bool = bool(o.get('b'))
        t.ch = bool(o.get('ch')); t.q = o.get('q'); t.n = o.get('n'); t.repo = bool(o.get('repo')); t.lam = o.get('lam')
        t.enum = o.get('enum'); t.rv = bool(o.get('rv')); t.fn = bool(o.get('fn')); t.union = bool(o.get('union'))
        if 'to' in o:
            t.to = T(o['to'])
        if 'ta' in o:
            t.ta = [T(x) if isinstance(x, int) else x for x in o['ta']]
    # types whose first unit only saw a forward declaration
    for o, t in zip(tj, local):
        if o and o.get('repo') and not t.repo:
            t.repo = True

    def walk(x):
        if isinstance(x, dict):
            for k in list(x.keys()):
                v = x[k]
                if k in TYKEYS and isinstance(v, int) and not isinstance(v, bool):
                    x[k] = T(v)
                elif k in TYLISTS and isinstance(v, list):
                    x[k] = [T(i) for i in v]
                elif k == 'base' and isinstance(v, int):
                    x[k] = T(v)
                elif isinstance(v, (dict, list)):
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    newl = set()
    for k, f in J['functions'].items():
        old = P.funcs.get(k)
        if old is None or (old.get('body') is None and f.get('body') is not None):
            walk(f); f['key'] = k; f['unit'] = unit
            P.funcs[k] = f
    for k, r in J['records'].items():
        if k not in P.records:
            walk(r); P.records[k] = r
    for k, g in J['globals'].items():
        if k not in P.globals or ('init' not in P.globals[k] and 'init' in g):
            walk(g); P.globals[k] = g
    for e in J['enums']:
        P.enums.setdefault(e['q'], e)


def compile_db(repo, scratch):
    b = os.path.join(scratch, 'cmake')
    r = subprocess.run(['cmake', '-S', repo, '-B', b, '-G', 'Ninja', '-DBUILD_TESTING=OFF', '-DBUILD_EXAMPLE=ON',
                        '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DCMAKE_BUILD_TYPE=Release'], capture_output=True, text=True)
    p = os.path.join(b, 'compile_commands.json')
    if r.returncode or not os.path.exists(p):
        raise AnalysisError('cmake configuration failed: ' + (r.stderr or r.stdout)[-2000:])
    out = {}
    for e in json.load(open(p)):
        f = os.path.normpath(os.path.join(e['directory'], e['file']))
        args = e['command'].split()[1:] if 'command' in e else e['arguments'][1:]
        keep = []
        i = 0
        while i < len(args):
            a = args[i]
            if a in ('-o', '-MF', '-MT', '-MQ'):
                i += 2; continue
            if a in ('-c', '-MD', '-MMD') or a == e['file'] or os.path.normpath(os.path.join(e['directory'], a)) == f:
                i += 1; continue
            if a.startswith(('-I', '-D', '-std', '-isystem', '-U', '-include', '-f', '-m', '-O')):
                keep.append(a)
                if a in ('-I', '-isystem', '-include', '-D'):
                    i += 1; keep.append(args[i])
            i += 1
        out.setdefault(f, keep)
    return out


def load(repo=None):
    repo = repo or REPO
    ensure_tool()
    scratch = tempfile.mkdtemp(prefix='safacts.')
    try:
        db = compile_db(repo, scratch)
        root = os.path.join(repo, 'src')
        units = [f for f in db if f.startswith(root + '/')]
        if not units:
            raise AnalysisError('no library translation units found in the compilation database')
        def run(iu):
            i, u = iu
            out = os.path.join(scratch, '%d.json' % i)
            flags = [a for a in db[u] if not a.startswith('-fstack') and not a.startswith('-O')]
            if not any(a.startswith('-std') for a in flags):
                flags.append('-std=gnu++17')
            r = subprocess.run([TOOL, '--root=' + root, '--out=' + out, u, '--', *flags, '-w', '-resource-dir',
                                '/usr/lib/llvm-18/lib/clang/18'], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisError('extraction of %s failed: %s' % (u, r.stderr[-1500:]))
            with open(out) as fh:
                return u, json.load(fh)
        P = Program(); P.root = repo
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, list(enumerate(sorted(units)))))
        for u, J in res:
            rel = os.path.relpath(u, repo)
            P.units.append(rel)
            _merge_unit(P, J, rel)
        P.method_by_key = {m['key']: m for r in P.records.values() for m in r['methods']}
        for f in P.funcs.values():
            f['file'] = 'src/' + f['file']
        return P
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    P = load()
    print('units', len(P.units), 'functions', len(P.funcs), 'bodies', sum(1 for f in P.funcs.values() if f.get('body')),
          'records', len(P.records), 'globals', len(P.globals), 'types', len(P.types), '%.1fs' % (time.time() - t))
