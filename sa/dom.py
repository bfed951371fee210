"""Abstract values: linear expressions over symbols with interval sets, abstract strings, heap values and pointers."""
INF = 1 << 80
MAXLEN = (1 << 30)


# ---------------------------------------------------------------- interval sets
def iv_norm(iv):
    iv = sorted(iv)
    out = []
    for a, b in iv:
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def iv_union(a, b):
    return a if a == b else iv_norm(a + b)


def iv_inter(a, b):
    out = []
    for l, h in a:
        for l2, h2 in b:
            x, y = max(l, l2), min(h, h2)
            if x <= y:
                out.append((x, y))
    return tuple(out)


def iv_remove(a, v):
    out = []
    for l, h in a:
        if l <= v <= h:
            if l <= v - 1:
                out.append((l, v - 1))
            if v + 1 <= h:
                out.append((v + 1, h))
        else:
            out.append((l, h))
    return tuple(out)


# ---------------------------------------------------------------- symbols
class SymInfo:
    __slots__ = ('id', 'key', 'nat', 'name', 'deps', 'approx', 'reps')


SYMS = []
_bykey = {}


def _mk(key, nat, name, approx=False):
    s = SymInfo()
    s.id = len(SYMS); s.key = key; s.nat = nat; s.name = name; s.approx = approx
    s.deps, _, s.reps = meta(key) if key is not None else (frozenset(), (), frozenset())
    SYMS.append(s)
    return s.id


def fresh(name, lo=-INF, hi=INF, approx=False):
    return Lin(0, ((_mk(None, ((lo, hi),), name, approx), 1),))


def sym(key, lo, hi=None, name=None):
    """structured (interned) symbol: equal keys are the same unknown"""
    i = _bykey.get(key)
    if i is None:
        i = _mk(key, ((lo, hi),) if not isinstance(lo, tuple) else lo, name)
        _bykey[key] = i
    return Lin(0, ((i, 1),))


class Lin:
    __slots__ = ('c', 't', '_h', '_m')

    def __init__(self, c, t):
        self.c = c; self.t = t; self._h = hash((c, t)); self._m = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t)

    def __repr__(self):
        return show_num(self)


def show_num(v):
    if isinstance(v, int):
        return str(int(v))
    if isinstance(v, Lin):
        out = []
        for s, k in v.t:
            i = SYMS[s]
            n = i.name or show_key(i.key)
            out.append(n if k == 1 else '%d*%s' % (k, n))
        if v.c:
            out.append(str(v.c))
        return '+'.join(out)
    return repr(v)


def show_key(k):
    if isinstance(k, tuple):
        return '(' + ' '.join(show_key(x) for x in k) + ')'
    return str(k)


def lin(c, d):
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    return Lin(c, t) if t else c


def is_num(v):
    return isinstance(v, (int, Lin))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(a) + int(b)
    if isinstance(a, int):
        return Lin(int(a) + b.c, b.t) if a else b
    if isinstance(b, int):
        return Lin(a.c + int(b), a.t) if b else a
    d = dict(a.t)
    for s, k in b.t:
        d[s] = d.get(s, 0) + k
    return lin(a.c + b.c, d)


def neg(a):
    if isinstance(a, int):
        return -int(a)
    return Lin(-a.c, tuple((s, -k) for s, k in a.t))


def sub(a, b):
    if isinstance(b, int):
        return add(a, -int(b))
    if a == b:
        return 0
    return add(a, neg(b))


def mulc(a, k):
    if isinstance(a, int):
        return int(a) * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((s, c * k) for s, c in a.t))


def single(a):
    """a = coef*sym + c with one symbol -> (sym, coef, c)"""
    if isinstance(a, Lin) and len(a.t) == 1:
        return a.t[0][0], a.t[0][1], a.c
    return None


# ---------------------------------------------------------------- other scalar values
class _Const:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNDEF = _Const('undef')     # never written
NULL = _Const('null')
VOID = _Const('void')


class Top:
    """unknown value (imprecision): `why` says where it came from"""
    __slots__ = ('why', 'tags')

    def __init__(self, why, tags=frozenset()):
        self.why = why; self.tags = tags

    def __repr__(self):
        return 'Top(%s)' % self.why

    def __eq__(self, o):
        return isinstance(o, Top) and o.tags == self.tags

    def __hash__(self):
        return hash(('Top', self.tags))


class Disc:
    """discrete ghost value"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Disc) and o.v == self.v

    def __hash__(self):
        return hash(('D', self.v))

    def __repr__(self):
        return 'D(%r)' % (self.v,)


class Ptr:
    """pointer to (obj,path); arr: points to element idx of the array/buffer at path"""
    __slots__ = ('obj', 'path', 'arr', 'idx', '_h')

    def __init__(self, obj, path=(), arr=False, idx=0):
        self.obj = obj; self.path = path; self.arr = arr; self.idx = idx
        self._h = hash((obj, path, arr, idx))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.path == o.path and self.arr == o.arr and self.idx == o.idx

    def __repr__(self):
        return '&%s%s%s' % (show_obj(self.obj), ''.join('.' + show_step(p) for p in self.path), '[%s]' % show_num(self.idx) if self.arr else '')


def show_step(p):
    return p.split('::')[-1] if isinstance(p, str) else '[%s]' % show_num(p[1])


def show_obj(o):
    return str(o)


class Fn:
    __slots__ = ('key', 'q')

    def __init__(self, key, q=None):
        self.key = key; self.q = q

    def __eq__(self, o):
        return isinstance(o, Fn) and o.key == self.key

    def __hash__(self):
        return hash(('Fn', self.key))

    def __repr__(self):
        return 'fn(%s)' % (self.q or self.key)


class MFn:
    __slots__ = ('key', 'q', 'virt')

    def __init__(self, key, q=None, virt=False):
        self.key = key; self.q = q; self.virt = virt

    def __eq__(self, o):
        return isinstance(o, MFn) and o.key == self.key

    def __hash__(self):
        return hash(('MFn', self.key))

    def __repr__(self):
        return 'mfn(%s)' % (self.q or self.key)


class Flt:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Flt) and self.v == o.v

    def __hash__(self):
        return hash(('Flt', self.v))


class Rec:
    """record value: cls and fields (immutable by convention: updates copy)"""
    __slots__ = ('cls', 'f', '_h', '_m', '_s')

    def __init__(self, cls, f):
        self.cls = cls; self.f = f; self._h = None; self._m = None; self._s = None

    def with_(self, k, v):
        d = dict(self.f); d[k] = v
        return Rec(self.cls, d)

    def __eq__(self, o):
        return self is o or (isinstance(o, Rec) and self.cls == o.cls and self.f == o.f)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.cls, frozenset(self.f.items())))
        return self._h

    def __repr__(self):
        return '%s{%s}' % (str(self.cls).split('::')[-1], ', '.join('%s=%r' % (str(k).split('::')[-1], v) for k, v in self.f.items()))


class Arr:
    """array / vector contents: n elements; indexes [lo,hi) hold tmpl (in terms of IDX); ex holds explicit elements"""
    __slots__ = ('n', 'lo', 'hi', 'tmpl', 'ex', 'kind', '_m')

    def __init__(self, n, lo=0, hi=0, tmpl=None, ex=(), kind='arr'):
        self.n = n; self.lo = lo; self.hi = hi; self.tmpl = tmpl; self.ex = tuple(ex); self.kind = kind; self._m = None

    def key(self):
        return (self.n, self.lo, self.hi, self.tmpl, self.ex, self.kind)

    def __eq__(self, o):
        return self is o or (isinstance(o, Arr) and self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%s(n=%s,[%s,%s):%r,%s)' % (self.kind, show_num(self.n), show_num(self.lo), show_num(self.hi), self.tmpl,
                                            {show_num(k): v for k, v in self.ex})


class CBuf:
    """raw char buffer: capacity, leading known text, whether a terminator follows the text.
    zero: everything after the text is zero; txt None: nothing written"""
    __slots__ = ('cap', 'txt', 'term', '_m')

    def __init__(self, cap, txt, term):
        self.cap = cap; self.txt = txt; self.term = term; self._m = None

    def key(self):
        return (self.cap, self.txt, self.term)

    def __eq__(self, o):
        return self is o or (isinstance(o, CBuf) and self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'CBuf(cap=%s,%r%s)' % (show_num(self.cap), self.txt, ',0' if self.term else '')


# ---------------------------------------------------------------- strings
class Seg:
    """characters [off,off+n) of source text src"""
    __slots__ = ('src', 'off', 'n', '_h')

    def __init__(self, src, off, n):
        self.src = src; self.off = off; self.n = n
        self._h = hash((src, off, n))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Seg) and self._h == o._h and self.src == o.src and self.off == o.off and self.n == o.n)

    def __repr__(self):
        return '<%s|%s+%s>' % (show_src(self.src), show_num(self.off), show_num(self.n))


def show_src(src):
    return ':'.join(show_num(x) if isinstance(x, Lin) else repr(x) if isinstance(x, Str) else str(x) for x in src)


class Rep:
    """for i in [lo,hi): one of alts (Strs in terms of IDX)"""
    __slots__ = ('alts', 'lo', 'hi', '_h')

    def __init__(self, alts, lo, hi):
        self.alts = alts; self.lo = lo; self.hi = hi; self._h = hash((alts, lo, hi))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Rep) and self._h == o._h and self.alts == o.alts and self.lo == o.lo and self.hi == o.hi

    def __repr__(self):
        return 'Rep[%s,%s){%s}' % (show_num(self.lo), show_num(self.hi), ' | '.join(repr(a) for a in self.alts))


class Unk:
    """unknown text of length n; tags: everything that may be in it; cs: charset or None"""
    __slots__ = ('id', 'n', 'tags', 'cs', '_h')

    def __init__(self, id, n, tags, cs=None):
        self.id = id; self.n = n; self.tags = tags; self.cs = cs; self._h = hash((id, n, tags))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Unk) and self.id == o.id and self.n == o.n and self.tags == o.tags

    def __repr__(self):
        return 'Unk#%s(%s)' % (self.id, ','.join(sorted(str(t) for t in self.tags if not (isinstance(t, tuple) and t[0] == 'lit'))))


_unk = [0]


def new_unk(tags=frozenset(), n=None, cs=None, approx=True):
    _unk[0] += 1
    if n is None:
        n = fresh('len?', 0, MAXLEN, approx)
    return Unk(_unk[0], n, frozenset(tags), cs)


class Str:
    __slots__ = ('p', '_h', '_m')

    def __init__(self, p=()):
        self.p = p; self._h = hash(p); self._m = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Str) and self._h == o._h and self.p == o.p)

    def __repr__(self):
        return 'S"' + ''.join(x.decode('latin-1').encode('unicode_escape').decode() if isinstance(x, bytes) else repr(x) for x in self.p) + '"'


EMPTY = Str(())


def lit(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    return Str((b,)) if b else EMPTY


def src_len(src):
    if src[0] == 'cat':
        return slen(src[1])
    if src[0] == 'ch':
        return 1
    if src[0] == 'f' and src[1] in SAMELEN:
        return slen(src[2])
    if src[0] == 'in' and len(src) > 2:
        return sym(('len', src), src[2], MAXLEN)
    lo = 0
    if src[0] == 'el' and src[3] == 'email':
        lo = 1
    return sym(('len', src), lo, MAXLEN)


SAMELEN = {'toUpper', 'toLower', 'map'}


def full(src):
    n = src_len(src)
    if isinstance(n, int) and n == 0:
        return EMPTY
    return Str((Seg(src, 0, n),))


def plen(p):
    if isinstance(p, bytes):
        return len(p)
    if isinstance(p, Rep):
        return sym(('rlen', p), 0, MAXLEN)
    return p.n


def slen(s):
    n = 0
    for p in s.p:
        n = add(n, plen(p))
    return n


def _merge(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a + b
    if isinstance(a, Seg) and isinstance(b, Seg) and a.src == b.src and add(a.off, a.n) == b.off:
        return Seg(a.src, a.off, add(a.n, b.n))
    return None


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, bytes):
            if not p:
                continue
        elif isinstance(p, Seg):
            if isinstance(p.n, int) and p.n <= 0:
                continue
            if p.src[0] == 'cat' and p.off == 0 and p.n == slen(p.src[1]):
                for q in p.src[1].p:
                    _push(out, q)
                continue
        _push(out, p)
    return Str(tuple(out))


def _push(out, p):
    if out:
        m = _merge(out[-1], p)
        if m is not None:
            out[-1] = m
            if isinstance(m, Seg) and m.src[0] == 'cat' and m.off == 0 and m.n == slen(m.src[1]):
                out.pop()
                for q in m.src[1].p:
                    _push(out, q)
            return
    out.append(p)


def concat(a, b):
    if not a.p:
        return b
    if not b.p:
        return a
    return mkstr(a.p + b.p)


# tags: what the text is derived from
RAWTAGS = [False]    # mark user texts that may contain line breaks with ('raw', name)
BREAKS = frozenset(b'\r\n')


def unraw(t):
    return frozenset(x for x in t if not (isinstance(x, tuple) and x[0] in ('raw', 'maybe')))


def src_tags(src):
    k = src[0]
    if k == 'in' or k == 'el':
        t = (src[1],) if k == 'in' else (src[1], src[1] + '.' + src[3])
        if RAWTAGS[0] and src_cs(src) & BREAKS:
            t += (('raw', t[-1]),)
        return frozenset(t)
    if k == 'cat':
        return str_tags(src[1])
    if k == 'f':
        t = frozenset()
        for x in src[2:]:
            if isinstance(x, Str):
                t |= str_tags(x)
        if RAWTAGS[0] and (src[1] == 'b64' or src[1] in ('filt', 'tr', 'map') and not BREAKS & src_cs(src)):
            t = unraw(t)
        return t | frozenset((('fn', src[1]),))
    if k == 'rep':
        return frozenset(('srv', src))
    if k == 'ch':
        if RAWTAGS[0] and not src_cs(src) & BREAKS:
            return unraw(src_tags(src[1]))
        return src_tags(src[1])
    return frozenset((src[0],))


def part_tags(p):
    if isinstance(p, bytes):
        return frozenset((('lit', p),))
    if isinstance(p, Seg):
        return src_tags(p.src)
    if isinstance(p, Rep):
        t = frozenset()
        for a in p.alts:
            t |= str_tags(a)
        return t
    if RAWTAGS[0] and p.cs is not None and not p.cs & BREAKS:
        return unraw(p.tags)
    return p.tags


def str_tags(s):
    t = frozenset()
    for p in s.p:
        t |= part_tags(p)
    return t


ALLCH = frozenset(range(256))
SPACES = frozenset(b' \t\n\v\f\r')
NOCRLF = ALLCH - frozenset(b'\r\n\0')
B64CH = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=\r\n')
CHARSETS = {}        # source root -> charset, filled by harnesses


def src_cs(src):
    c = CHARSETS.get(src)
    if c is not None:
        return c
    k = src[0]
    if k == 'cat':
        return str_cs(src[1])
    if k == 'ch':
        return src[3] if len(src) > 3 else src_cs(src[1])
    if k == 'el':
        c = CHARSETS.get(('el', src[1], None, src[3]))
        return c if c is not None else ALLCH - {0}
    if k == 'f':
        if src[1] == 'b64':
            return B64CH
        if src[1] == 'sub':
            return str_cs(src[2])
        if src[1] == 'toUpper':
            return frozenset(bytes(str_cs(src[2])).upper())
        if src[1] == 'toLower':
            return frozenset(bytes(str_cs(src[2])).lower())
        if src[1] == 'filt':
            return src[3]
        if src[1] == 'tr':
            return TRANSCS[src[3]]
        if src[1] == 'map':
            return frozenset(src[3][c] for c in str_cs(src[2]))
        if src[1] == 'num':
            return frozenset(b'-0123456789')
        return ALLCH
    return ALLCH - {0}


TRANS = []           # tables of transducers: {(state, byte): (state, bytes)}, starting in state 0
TRANSCS = []         # what they can produce
_trans = {}


def transduce(t, tab, chars):
    """the text a finite-state transducer makes of t"""
    live = {q for q, _ in tab}
    if all(len(o) == 1 for _, o in tab.values()):
        # the same for every state: a character map
        m = list(range(256))
        for c in chars:
            os = {tab[(q, c)][1] for q in live}
            if len(os) != 1:
                break
            m[c] = os.pop()[0]
        else:
            from .models import map_text
            return map_text(t, m)
    key = tuple(sorted(tab.items()))
    i = _trans.get(key)
    if i is None:
        i = _trans[key] = len(TRANS)
        TRANS.append(tab)
        TRANSCS.append(frozenset(c for _, o in tab.values() for c in o))
    src = ('f', 'tr', t, i)
    return full(src)


def part_cs(p):
    if isinstance(p, bytes):
        return frozenset(p)
    if isinstance(p, Seg):
        return src_cs(p.src)
    if isinstance(p, Rep):
        c = frozenset()
        for a in p.alts:
            c |= str_cs(a)
        return c
    return p.cs if p.cs is not None else ALLCH


def str_cs(s):
    c = frozenset()
    for p in s.p:
        c |= part_cs(p)
    return c


# ---------------------------------------------------------------- dependencies and substitution
IDXSYM = _mk(None, ((0, MAXLEN),), '$i')
IDX = Lin(0, ((IDXSYM, 1),))


_E = frozenset()
_NOMETA = (_E, (), _E)
_JUSTIDX = frozenset((IDXSYM,))


def meta(x):
    """(symbols a value depends on, heap objects it points to in traversal order, labels of server replies in it)"""
    t = type(x)
    if t is int or t is bool or t is str or t is bytes or x is None:
        return _NOMETA
    if t is Lin or t is Str or t is CBuf or t is Rec or t is Arr:
        m = x._m
        if m is None:
            m = x._m = _meta(x, t)
        return m
    return _meta(x, t)


def _join(ms):
    d = _E; o = (); r = _E
    for a, b, c in ms:
        if a:
            d = d | a if d else a
        if b:
            o = o + tuple(y for y in b if y not in o) if o else b
        if c:
            r = r | c if r else c
    return (d, o, r)


def _meta(x, t):
    if t is Lin:
        d = set(); r = _E
        for s, _ in x.t:
            i = SYMS[s]
            d.add(s)
            if i.deps:
                d |= i.deps
            if i.reps:
                r = r | i.reps
        return (frozenset(d), (), r)
    if t is tuple:
        if len(x) == 2 and x[0] == 'rep' and type(x[1]) is str:
            return (_E, (), frozenset((x[1],)))
        return _join([meta(y) for y in x])
    if t is frozenset:
        return _join([meta(y) for y in x])
    if t is Str:
        return _join([meta(y) for y in x.p if type(y) is not bytes])
    if t is Seg:
        return _join((meta(x.src), meta(x.off), meta(x.n)))
    if t is Rep:
        m = _join([meta(y) for y in x.alts])
        if IDXSYM in m[0]:
            m = (m[0] - _JUSTIDX, m[1], m[2])
        return _join((m, meta(x.lo), meta(x.hi)))
    if t is Unk:
        m = meta(x.n)
        r = frozenset(y[1] for y in x.tags if type(y) is tuple and len(y) == 2 and y[0] == 'rep')
        return (m[0], m[1], m[2] | r) if r else m
    if t is Ptr:
        o = x.obj
        if o is None:
            b = _NOMETA
        elif o[0] == 'F':
            b = (meta(o[2])[0], (('F', o[1]),), _E)
        elif o[0] == 'L':
            b = meta(o[1])
        else:
            b = (_E, (o,), _E)
        if x.path or type(x.idx) is Lin:
            return _join((b, meta(x.path), meta(x.idx)))
        return b
    if t is Rec:
        f = x.f
        try:
            ks = sorted(f)
        except TypeError:
            ks = sorted(f, key=str)
        return _join([meta(f[k]) for k in ks])
    if t is Arr:
        ms = [meta(x.n), meta(x.lo), meta(x.hi)]
        if x.tmpl is not None:
            m = meta(x.tmpl)
            if IDXSYM in m[0]:
                m = (m[0] - _JUSTIDX, m[1], m[2])
            ms.append(m)
        for k, v in x.ex:
            ms.append(meta(v)); ms.append(meta(k))
        return _join(ms)
    if t is CBuf:
        return _join((meta(x.cap), meta(x.txt)))
    if t is Top and x.tags:
        r = frozenset(y[1] for y in x.tags if type(y) is tuple and len(y) == 2 and y[0] == 'rep')
        return (_E, (), r)
    return _NOMETA


def deps_of(x, out=None):
    if out is None:
        return set(meta(x)[0])
    out |= meta(x)[0]
    return out


class Subst:
    """substitution of symbols by linear expressions, objects by objects, text sources by sources"""

    def __init__(self, m=None, om=None, sm=None):
        self.m = m or {}
        self.om = om
        self.sm = sm
        self.memo = {}
        self.dom = frozenset(self.m)
        self.reps = None
        if sm:
            self.reps = frozenset(k[1] for k in sm if type(k) is tuple and len(k) == 2 and k[0] == 'rep')
            if len(self.reps) != len(sm):
                self.reps = None
        self.moved = None
        if om is not None and type(om) is dict:
            self.moved = om

    def symk(self, s):
        r = self.memo.get(s)
        if r is not None:
            return r
        v = self.m.get(s)
        if v is None:
            i = SYMS[s]
            if i.key is not None and (self.sm or not i.deps.isdisjoint(self.m)):
                k2 = self.any(i.key)
                v = Lin(0, ((s, 1),)) if k2 == i.key else sym_from_key(k2, i)
            else:
                v = Lin(0, ((s, 1),))
        self.memo[s] = v
        return v

    def num(self, x):
        if not isinstance(x, Lin):
            return x
        m = self.m
        hit = False
        for s, k in x.t:
            if s in m or SYMS[s].key is not None:
                hit = True; break
        if not hit:
            return x
        c = x.c
        d = {}
        for s, k in x.t:
            v = self.symk(s)
            if isinstance(v, int):
                c += int(v) * k
            else:
                c += v.c * k
                for s2, k2 in v.t:
                    d[s2] = d.get(s2, 0) + k2 * k
        return lin(c, d)

    def src(self, src):
        if self.sm and src in self.sm:
            return self.sm[src]
        return self.any(src)

    def untouched(self, x):
        d, o, r = meta(x)
        if self.dom and not self.dom.isdisjoint(d):
            return False
        if self.sm and (self.reps is None or not self.reps.isdisjoint(r)):
            return False
        if self.om is not None and o:
            g = self.om.get
            for y in o:
                if y[0] == 'F':
                    if g(y[1], y[1]) != y[1]:
                        return False
                elif g(y, y) != y:
                    return False
        return True

    def any(self, x):
        t = type(x)
        if t is int or t is str or t is bytes or t is bool or x is None:
            return x
        if (t is Lin or t is Str or t is Rec or t is CBuf or t is Arr) and self.untouched(x):
            return x
        if t is Lin:
            return self.num(x)
        if t is tuple:
            if self.sm:
                r = self.sm.get(x)
                if r is not None:
                    return r
            ch = False
            out = []
            for y in x:
                z = self.any(y)
                if z is not y:
                    ch = True
                out.append(z)
            return tuple(out) if ch else x
        if t is frozenset:
            r = frozenset(self.any(y) for y in x)
            return x if r == x else r
        if t is Str:
            ch = False
            out = []
            for y in x.p:
                z = y if isinstance(y, bytes) else self.any(y)
                if z is not y:
                    ch = True
                out.append(z)
            return mkstr(out) if ch else x
        if t is Seg:
            a, b, c = self.src(x.src), self.num(x.off), self.num(x.n)
            return x if a is x.src and b is x.off and c is x.n else Seg(a, b, c)
        if t is Rep:
            sub_ = self
            if IDXSYM in self.m:
                sub_ = Subst({k: v for k, v in self.m.items() if k != IDXSYM}, self.om, self.sm)
            a = frozenset(sub_.any(y) for y in x.alts); b, c = self.num(x.lo), self.num(x.hi)
            return x if a == x.alts and b is x.lo and c is x.hi else Rep(a, b, c)
        if t is Unk:
            n = self.num(x.n)
            tg = x.tags
            if self.sm and any(isinstance(y, tuple) and y in self.sm for y in tg):
                tg = frozenset(self.sm.get(y, y) if isinstance(y, tuple) else y for y in tg)
            return x if n is x.n and tg is x.tags else Unk(x.id, n, tg, x.cs)
        if t is Ptr:
            o = self.obj(x.obj)
            p = self.any(x.path) if x.path else x.path
            i = self.num(x.idx)
            return x if o is x.obj and p is x.path and i is x.idx else Ptr(o, p, x.arr, i)
        if t is Rec:
            ch = False
            d = {}
            for k, y in x.f.items():
                z = self.any(y)
                if z is not y:
                    ch = True
                d[k] = z
            return Rec(x.cls, d) if ch else x
        if t is Arr:
            n, lo, hi = self.num(x.n), self.num(x.lo), self.num(x.hi)
            tm = x.tmpl
            if tm is not None:
                sub_ = self
                if IDXSYM in self.m:
                    sub_ = Subst({k: v for k, v in self.m.items() if k != IDXSYM}, self.om, self.sm)
                tm = sub_.any(tm)
            ex = tuple((self.num(k), self.any(v)) for k, v in x.ex)
            return Arr(n, lo, hi, tm, ex, x.kind)
        if t is CBuf:
            c, s = self.num(x.cap), self.any(x.txt)
            return x if c is x.cap and s is x.txt else CBuf(c, s, x.term)
        if t is Disc:
            if isinstance(x.v, tuple) or isinstance(x.v, frozenset):
                v = self.any(x.v)
                return x if v == x.v else Disc(v)
            return x
        if t is Top and self.sm and x.tags:
            tg = frozenset(self.sm.get(y, y) if isinstance(y, tuple) else y for y in x.tags)
            return x if tg == x.tags else Top(x.why, tg)
        return x

    def obj(self, o):
        """object ids: ('F', fid, idx) carry an index"""
        if isinstance(o, tuple) and o and o[0] == 'F':
            fid = o[1]
            if self.om is not None:
                fid = self.om.get(fid, fid)
            i = self.num(o[2])
            return o if fid is o[1] and i is o[2] else ('F', fid, i)
        if self.om is not None:
            return self.om.get(o, o)
        return o


def sym_from_key(k, old):
    if k[0] == 'len':
        return src_len(k[1])
    i = _bykey.get(k)
    if i is None:
        i = _mk(k, old.nat, None)
        _bykey[k] = i
    return Lin(0, ((i, 1),))
