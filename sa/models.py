"""Models of the C and C++ library functions the analysed code uses (texts, containers, algorithms, streams)."""
from .dom import *
from .state import *
from .interp import NPOS, STRCLS, SSCLS, VECCLS, Infeasible, N, B, C, R, X

SVCLS = {'std::basic_string_view'}
FUNCS = {}
OPS = {}
METHODS = {}
CTORS = {}


def fun(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
            if n.startswith('std::'):
                continue
            FUNCS.setdefault('std::' + n, f)
        return f
    return d


def meth(cls, *names):
    cs = cls if isinstance(cls, (set, tuple, list, frozenset)) else (cls,)
    def d(f):
        for c in cs:
            for n in names:
                METHODS[(c, n)] = f
        return f
    return d


def default_value(t):
    if t.q in STRCLS or t.q in SVCLS:
        return EMPTY
    if t.q in SSCLS:
        return Rec(t.q, {'buf': EMPTY, 'pos': 0})
    if t.q in VECCLS:
        if t.q == 'std::array' and t.ta and len(t.ta) > 1 and isinstance(t.ta[1], int):
            return Arr(t.ta[1], kind='vec')
        return Arr(0, kind='vec')
    if t.q in ('std::unique_ptr', 'std::shared_ptr'):
        return Rec(t.q, {'p': NULL})
    if t.q == 'std::pair':
        return Rec(t.q, {'std::pair::first': 0, 'std::pair::second': 0})
    return Rec(t.q, {})


# ---------------------------------------------------------------- text access
def nref(t):
    return t.to if t is not None and t.k == 'ref' else t


def S_at(I, s, p, n):
    """std::string object at p"""
    if isinstance(p, Str):
        return p
    v = I.load(s, p, n)
    if isinstance(v, Str):
        return v
    if isinstance(v, CBuf) and v.txt is not None:
        return v.txt
    if isinstance(v, Top):
        s.imprecise('text unknown (%s)' % v.why)
        return Str((new_unk(v.tags),))
    s.imprecise('text unknown')
    return Str((new_unk(),))


def T(I, s, v, node, n):
    """text of an argument by its static type: std::string, string_view, char*, char"""
    t = nref(node['t'])
    if isinstance(v, Str):
        return v
    if t is not None and t.k == 'rec':
        return I.norm(s, S_at(I, s, v, n))
    if t is not None and t.k == 'int':
        if isinstance(v, Ptr):
            v = I.load(s, v, n)
        return I.chr_str(s, v)
    if t is not None and t.k == 'arr':
        if isinstance(v, Ptr) and not v.arr:
            v = Ptr(v.obj, v.path, True, 0)
        return I.norm(s, I.cstr(s, v, n))
    return I.norm(s, I.cstr(s, v, n))


def val(I, s, v, node, n):
    """scalar value of an argument that may be passed by reference"""
    if isinstance(v, Ptr):
        t = nref(node['t'])
        if node.get('g') and t is not None and not t.is_ptr() and t.k not in ('rec', 'arr', 'fn'):
            return I.load(s, v, n)
        if t is not None and t.k in ('int', 'float'):
            return I.load(s, v, n)
    return v


def lval(I, s, v, node, n):
    """value of the object an lvalue/xvalue argument designates (any scalar, pointers included)"""
    if node.get('g') and isinstance(v, Ptr) and nref(node['t']).k not in ('fn',):
        return I.load(s, v, n)
    return v


def setS(I, s, p, v, n):
    I.store(s, p, I.norm(s, v), n)


def args(n):
    return [a for a in n['args']]


def top_str(tags=frozenset()):
    return Str((new_unk(tags),))


def throw(s, q, n=None):
    s.exc = Rec(q, {})
    s.note('%s thrown at line %s' % (q, n.get('l') if n else '?'))
    return [(s, None)]


# ---------------------------------------------------------------- comparison of texts
def lead(s):
    return s.p[0] if s.p and isinstance(s.p[0], bytes) else b''


def tail(s):
    return s.p[-1] if s.p and isinstance(s.p[-1], bytes) else b''


def is_lit(s):
    return not s.p or (len(s.p) == 1 and isinstance(s.p[0], bytes))


def lbytes(s):
    return s.p[0] if s.p else b''


def txt_eq(I, s, a, b, n):
    """[(state, bool)]"""
    a = I.norm(s, a); b = I.norm(s, b)
    if a == b:
        return [(s, True)]
    if is_lit(a) and is_lit(b):
        return [(s, False)]
    la, lb = slen(a), slen(b)
    if not a.p or not b.p:
        return I.compare(s, '==', la if not b.p else lb, 0, n)
    if s.ne(la, lb):
        return [(s, False)]
    x, y = lead(a), lead(b)
    k = min(len(x), len(y))
    if x[:k] != y[:k]:
        return [(s, False)]
    x, y = tail(a), tail(b)
    k = min(len(x), len(y))
    if k and x[-k:] != y[-k:]:
        return [(s, False)]
    for p, q in ((a, b), (b, a)):
        if is_lit(p):
            cs = str_cs(q)
            if any(c not in cs for c in lbytes(p)):
                return [(s, False)]
    if any(isinstance(p, Unk) for p in a.p + b.p):
        key = None
    else:
        if repr(a) > repr(b):
            a, b = b, a
        key = ('streq', a, b)
    sy = sym(key, 0, 1) if key else fresh('streq', 0, 1)
    if I.g is not None:
        I.g.on_text_test(I, s, a, b, 'eq')
    out = []
    c = s.const(sy)
    if c != 0:
        t = s.copy()
        if t.assume_eq0(sub(sy, 1)) and t.assume_eq0(sub(la, lb)):
            if I.g is not None:
                I.g.on_text(I, t, a, b, 'eq', True)
            out.append((t, True))
    if c != 1:
        if s.assume_eq0(sy):
            if I.g is not None:
                I.g.on_text(I, s, a, b, 'eq', False)
            out.append((s, False))
    return out


def find(I, s, S, pat, pos, n, last=False):
    """position of pat in S at or after pos (or last at or before pos): [(state, index)] with NPOS for none"""
    S = I.norm(s, S)
    L = slen(S)
    m = slen(pat)
    if is_lit(pat):
        pb = lbytes(pat)
        if is_lit(S):
            cp = s.const(pos) if is_num(pos) else None
            if cp is not None:
                b = lbytes(S)
                r = b.rfind(pb, 0, None if cp >= len(b) else cp + len(pb)) if last else b.find(pb, cp) if cp <= len(b) else -1
                return [(s, NPOS if r < 0 else r)]
        cs = str_cs(S)
        if any(c not in cs for c in pb):
            return [(s, NPOS)]
        if not last and isinstance(pos, int) and pos == 0 and lead(S).find(pb) >= 0:
            return [(s, lead(S).find(pb))]
        if last and pos == NPOS and pb and tail(S).rfind(pb) >= 0:
            t = tail(S)
            return [(s, add(sub(L, len(t)), t.rfind(pb)))]
        if not pb:
            return [(s, pos)] if not last else [(s, L)]
    definite = False
    if is_lit(pat):
        q = 0
        for p in S.p:
            if isinstance(p, bytes) and lbytes(pat) in p and (last and pos == NPOS or not last and (s.ge0(sub(q, pos)))):
                definite = True
            q = add(q, plen(p))
    out = []
    k = ('find', S, pat, pos, last)
    has = sym(('has',) + k, 0, 1) if not any(isinstance(p, Unk) for p in S.p) else fresh('has', 0, 1)
    idx = sym(k, 0, MAXLEN) if not any(isinstance(p, Unk) for p in S.p) else fresh('pos', 0, MAXLEN)
    c = s.const(has)
    if c != 0:
        t = s.copy()
        ok = t.assume_eq0(sub(has, 1)) and t.assume_ge0(sub(L, add(idx, m)))
        if ok and not last and not (isinstance(pos, int) and pos == 0):
            ok = t.assume_ge0(sub(idx, pos))
        if ok and last and is_num(pos) and pos != NPOS:
            ok = t.assume_ge0(sub(pos, idx))
        if ok:
            if I.g is not None:
                I.g.on_text(I, t, S, pat, 'find', True, pos)
            out.append((t, idx))
    if c != 1 and not definite:
        if s.assume_eq0(has):
            if I.g is not None:
                I.g.on_text(I, s, S, pat, 'find', False, pos)
            if is_lit(pat) and len(lbytes(pat)) == 1:
                lacks(I, s, S, frozenset(lbytes(pat)), last and pos == NPOS or not last and isinstance(pos, int) and pos == 0)
            out.append((s, NPOS))
    return out


DIGITS = frozenset(b'0123456789')


def lacks(I, s, S, cs, whole):
    """the text (or the searched part of it) was found to contain none of the characters"""
    if getattr(I, 'track_match', False) and cs & BREAKS and any(isinstance(x, tuple) and x[0] in ('raw', 'maybe') for x in str_tags(S)):
        o = s.h.get(('K', 'match'))
        s.h[('K', 'match')] = Obj('ghost', Disc((o.val.v if o is not None else frozenset()) | {(S, cs & BREAKS if whole else frozenset())}))


def find_set(I, s, S, cs, pos, n, neg=False, last=False):
    """first/last char in (not in) cs"""
    out = find_set1(I, s, S, cs, pos, n, neg, last)
    for s2, r in out:
        if isinstance(r, int) and r == NPOS:
            lacks(I, s2, S, ALLCH - cs if neg else cs, last and pos == NPOS or not last and isinstance(pos, int) and pos == 0)
    return out


def find_set1(I, s, S, cs, pos, n, neg=False, last=False):
    S = I.norm(s, S)
    if neg:
        cs = ALLCH - cs
    L = slen(S)
    if is_lit(S) and (isinstance(pos, int)):
        b = lbytes(S)
        rng = range(min(pos, len(b) - 1), -1, -1) if last else range(pos, len(b))
        for i in rng:
            if b[i] in cs:
                return [(s, i)]
        return [(s, NPOS)]
    if not (str_cs(S) & cs):
        return [(s, NPOS)]
    k = ('finds', S, cs, pos, last)
    unk = any(isinstance(p, Unk) for p in S.p)
    has = sym(('has',) + k, 0, 1) if not unk else fresh('has', 0, 1)
    idx = sym(k, 0, MAXLEN) if not unk else fresh('pos', 0, MAXLEN)
    out = []
    c = s.const(has)
    impossible_none = False
    # a character known to be in the set
    if len(S.p) >= 1 and isinstance(S.p[0], Seg) and not (isinstance(S.p[0].n, int) and S.p[0].n == 0):
        p0 = S.p[0]
        ch = sym(('chr', p0.src, p0.off), cs_iv_(part_cs(p0)))
        if s.gt0(p0.n) and all(((x & 255) in cs) for a, b in s.vals(ch) for x in range(max(a, -128), min(b, 127) + 1)):
            impossible_none = True
            if not last and isinstance(pos, int) and pos == 0:
                return [(s, 0)]
        if p0.src[0] == 'rep' and DIGITS <= cs and (last and pos == NPOS or not last and isinstance(pos, int) and pos == 0):
            # a reply that starts with a number contains digits
            rc = I.g.reply_code(s, p0)
            if rc is not None and s.bounds(rc)[0] > 0:
                impossible_none = True
    for p in S.p:
        if isinstance(p, bytes) and any(x in cs for x in p) and (last and pos == NPOS or not last and isinstance(pos, int) and pos == 0):
            impossible_none = True
    if c != 0:
        t = s.copy()
        ok = t.assume_eq0(sub(has, 1)) and t.assume_ge0(sub(sub(L, idx), 1))
        if ok and not last and not (isinstance(pos, int) and pos == 0):
            ok = t.assume_ge0(sub(idx, pos))
        if ok:
            # the character found
            if len(S.p) == 1 and isinstance(S.p[0], Seg):
                p0 = S.p[0]
                ch = sym(('chr', p0.src, add(p0.off, idx)), cs_iv_(part_cs(p0)))
                iv = iv_inter(t.vals(ch), cs_iv_(cs))
                if iv:
                    t.cons[ch.t[0][0]] = iv
                else:
                    ok = False
        if ok:
            out.append((t, idx))
    if c != 1 and not impossible_none:
        if s.assume_eq0(has):
            out.append((s, NPOS))
    return out


def cs_iv_(cs):
    return iv_norm([((c - 256 if c > 127 else c),) * 2 for c in cs]) or ((-128, 127),)


def pred_set(I, s, f, n, unsigned=False):
    """characters for which the predicate closure/function is true; None if it cannot be evaluated"""
    v = I.peek(s, f) if isinstance(f, Ptr) else f
    key = None
    if isinstance(v, Rec) and v.cls == '$lambda':
        if any(isinstance(k, tuple) for k in v.f):
            key = None
        else:
            key = ('lam', v.f['$key'])
    elif isinstance(f, Fn):
        key = ('fn', f.key)
    if key is not None and key in I.caps:
        return I.caps[key]
    out = []
    tab = char_table(I, s, f, n)
    r = None
    if tab is not None:
        r = frozenset(c for c in range(256) if tab[c])
    if key is not None:
        I.caps[key] = r
    return r


def char_table(I, s, f, n):
    """result of a unary character function for every character (as unsigned index), None if undecidable"""
    tab = []
    fv = I.peek(s, f) if isinstance(f, Ptr) else f
    ck = None
    if isinstance(fv, Fn):
        ck = fv.key
    elif isinstance(fv, Rec) and fv.cls == '$lambda' and set(fv.f) == {'$ops'}:
        ck = tuple(fv.f['$ops'].key)
    if ck is not None and ck in I.tables:
        return I.tables[ck]
    I.suppress += 1
    g = I.g
    I.g = None
    try:
        for c in range(256):
            ch = c - 256 if c > 127 else c
            t = s.copy()
            r = call_fn(I, t, f, [ch], n)
            vals = set()
            for t2, v in r:
                if t2.exc is not None or not is_num(v):
                    return None
                x = t2.const(v)
                if x is None:
                    return None
                vals.add(x)
            if len(vals) != 1:
                return None
            tab.append(vals.pop())
    except Infeasible:
        return None
    finally:
        I.suppress -= 1
        I.g = g
    if ck is not None and not any(x.get('k') == 'ref' and x.get('dk') == 'glob' for o in (ck if isinstance(ck, tuple) else (ck,)) for x in nodes(I.P.funcs.get(o, {}).get('body'))):
        I.tables[ck] = tab
    return tab


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from nodes(v)
    elif isinstance(n, list):
        for x in n:
            yield from nodes(x)


def call_fn(I, s, f, vs, n, loc=None):
    """call a closure / function value with the given argument values (scalars converted to the parameter type)"""
    v = I.peek(s, f) if isinstance(f, Ptr) else f
    if isinstance(v, Rec) and v.cls == '$lambda':
        ops = v.f['$ops'].key
        key = None
        for o in ops:
            if o in I.P.funcs and len(I.P.funcs[o]['params']) == len(vs):
                key = o
                # generic lambdas: prefer the instantiation whose parameter class matches
                pt = nref(I.P.funcs[o]['params'][0]['t']) if vs else None
                if pt is not None and pt.k == 'rec' and isinstance(vs[0], Ptr):
                    pv = I.peek(s, vs[0])
                    if isinstance(pv, Rec) and (pv.cls == pt.q or pv.cls in I.P.records and I.P.derives(pv.cls, pt.q)):
                        break
        if key is None:
            return I.unmodelled(n, s, vs, 'closure')
        a = conv_args(I, s, I.P.funcs[key], vs, n)
        return I.invoke(s, key, None, a, n, loc, clo=f)
    if isinstance(v, Fn):
        if v.key in I.P.funcs and I.P.funcs[v.key].get('body') is not None:
            return I.invoke(s, v.key, None, conv_args(I, s, I.P.funcs[v.key], vs, n), n, loc)
        m = FUNCS.get(v.q)
        if m is not None:
            n2 = {'k': 'call', 'q': v.q, 'fn': v.key, 'l': n.get('l'), 't': n.get('t'), 'pt': [], 'args': [{'t': None, 'k': 'nop'} for _ in vs]}
            return m(I, s, n2, vs)
    if isinstance(v, Rec) and v.cls in I.P.records:
        for m in I.P.records[v.cls]['methods']:
            if m['n'] == 'operator()' and m['key'] in I.P.funcs:
                return I.invoke(s, m['key'], f, conv_args(I, s, I.P.funcs[m['key']], vs, n), n, loc)
    return I.unmodelled(n, s, vs, 'call of an unknown function object')


def conv_args(I, s, f, vs, n):
    out = []
    for p, v in zip(f['params'], vs):
        t = p['t']
        if t.k == 'int' and is_num(v):
            r = I.conv(s, v, t, t, n)
            v = r[0][1] if len(r) == 1 else v
        elif t.k == 'int' and isinstance(v, Ptr):
            v = I.load(s, v, n)
            r = I.conv(s, v, t, t, n)
            v = r[0][1] if len(r) == 1 else v
        elif t.k == 'ptr' and isinstance(v, Ptr) and getattr(v, 'arr', False) and False:
            pass
        elif t.k == 'ref' and t.to is not None and t.to.k == 'int' and is_num(v):
            oid = ('x', s.depth, ('arg', p['id']))
            s.h[oid] = Obj('tmp', v)
            v = Ptr(oid)
        out.append(v)
    return out


# ---------------------------------------------------------------- C strings
@fun('strlen')
def f_strlen(I, s, n, vs):
    t = I.cstr(s, vs[0], n)
    return [(s, slen(I.norm(s, t)))]


@fun('strnlen')
def f_strnlen(I, s, n, vs):
    t = I.norm(s, I.cstr(s, vs[0], n))
    L = slen(t)
    out = []
    for s2, b in I.compare(s, '<', L, vs[1], n):
        out.append((s2, L if b else vs[1]))
    return out


@fun('strcmp', 'strcoll')
def f_strcmp(I, s, n, vs):
    a = I.cstr(s, vs[0], n); b = I.cstr(s, vs[1], n)
    out = []
    for s2, e in txt_eq(I, s, a, b, n):
        if e:
            out.append((s2, 0))
        else:
            f = fresh('cmp', -255, 255)
            s2.assume_ne0(f)
            out.append((s2, f))
    return out


@fun('strcasecmp', 'strncasecmp', 'memcmp')
def f_strcasecmp(I, s, n, vs):
    return [(s, fresh('cmp', -255, 255))]


def prefix(I, s, t, k, n):
    """[(state, first min(k,len) characters)]"""
    L = slen(t)
    out = []
    for s2, b in I.compare(s, '<', L, k, n):
        out.append((s2, t if b else I.cut(s2, t, k)[0]))
    return out


@fun('strncmp')
def f_strncmp(I, s, n, vs):
    a = I.cstr(s, vs[0], n); b = I.cstr(s, vs[1], n)
    out = []
    for s1, x in prefix(I, s, a, vs[2], n):
        for s2, y in prefix(I, s1, b, vs[2], n):
            for s3, e in txt_eq(I, s2, x, y, n):
                if e:
                    out.append((s3, 0))
                else:
                    f = fresh('cmp', -255, 255); s3.assume_ne0(f)
                    out.append((s3, f))
    return out


def buf_at(I, s, p, n, what='write'):
    """(value, index, setter) of the character array p points into"""
    p = I.deref(s, p, n, what)
    if p is None:
        return None
    if p.obj[0] == 'L':
        if what == 'write':
            I.alarm(s, 'lit-write', 'write into a string literal', n)
            raise Infeasible('lit')
        return p.obj[1], (p.idx if p.arr else 0), None
    ob = I.base(s, p, n, what)
    if ob is None:
        raise Infeasible('bad buffer')
    path = p.path; idx = p.idx if p.arr else 0
    v = I.getpath(s, ob.val, path, n)
    if not p.arr and path and isinstance(path[-1], tuple) and path[-1][0] == 'e':
        v2 = I.getpath(s, ob.val, path[:-1], n)
        if isinstance(v2, (CBuf, Str, Arr)):
            v = v2; idx = path[-1][1]; path = path[:-1]
    q = Ptr(p.obj, path)
    def setter(x):
        I.store(s, q, x, n)
    return v, idx, setter


def overwrite(I, s, p, txt, n, term=None, rule='oob-write'):
    """write txt at p; term: 'Z' pad zeros to the given count already included, True writes a terminator after it"""
    r = buf_at(I, s, p, n)
    if r is None:
        return
    v, idx, setter = r
    L = slen(txt)
    if isinstance(v, CBuf):
        end = add(idx, L)
        need = add(end, 1) if term else end
        I.ob('bounds')
        if not s.ge0(sub(v.cap, need)):
            t = s.copy()
            if t.assume_ge0(sub(need, add(v.cap, 1))):
                I.alarm(t, rule, 'writes %s bytes at offset %s of a buffer of %s bytes' % (show_num(add(L, 1) if term else L), show_num(idx), show_num(v.cap)), n, (need, v.cap))
            if not s.assume_ge0(sub(v.cap, need)):
                raise Infeasible('overflow')
        old = v.txt if v.txt is not None else EMPTY
        oldL = slen(old)
        if s.ge0(sub(oldL, idx)):
            pre = I.cut(s, old, idx)[0]
        elif isinstance(v.term, str) and v.term == 'Z':
            pre = concat(old, Str((Unk(('nul',), sub(idx, oldL), frozenset(), frozenset((0,))),)))
        else:
            pre = concat(old, Str((new_unk(str_tags(old) | {'uninit'}, sub(idx, oldL)),)))
        if term:
            setter(CBuf(v.cap, I.norm(s, concat(pre, txt)), 'Z' if v.term == 'Z' and not s.gt0(sub(oldL, end)) else True))
        else:
            if s.gt0(sub(oldL, end)):
                post = I.cut(s, old, end)[1]
                setter(CBuf(v.cap, I.norm(s, concat(concat(pre, txt), post)), v.term))
            elif v.term == 'Z' and s.gt0(sub(v.cap, end)):
                setter(CBuf(v.cap, I.norm(s, concat(pre, txt)), 'Z'))
            elif v.term and s.gt0(sub(oldL, end)) is False and s.eq(oldL, end) :
                setter(CBuf(v.cap, I.norm(s, concat(pre, txt)), v.term))
            else:
                setter(CBuf(v.cap, I.norm(s, concat(pre, txt)), False))
        return
    if isinstance(v, Str):
        SL = slen(v)
        end = add(idx, L)
        if not s.ge0(sub(SL, end)):
            t = s.copy()
            if t.assume_ge0(sub(end, add(SL, 1))):
                I.alarm(t, rule, 'writes %s bytes at offset %s of a text of %s bytes' % (show_num(L), show_num(idx), show_num(SL)), n, (end, SL))
        a = I.cut(s, v, idx)[0]; b = I.cut(s, v, end)[1]
        setter(I.norm(s, concat(concat(a, txt), b)))
        return
    if isinstance(v, Rec) and s.const(idx) == 0 and not term and all(is_num(x) or x is UNDEF for x in v.f.values()):
        # the bytes of a plain structure: any values
        setter(Rec(v.cls, {k: fresh('bytes', 0, (1 << 64) - 1) for k in v.f}))
        return
    if (is_num(v) or v is UNDEF) and s.const(idx) == 0 and not term:
        # the bytes of a number: any value
        k = s.const(L)
        setter(fresh('bytes', 0, (1 << 8 * k) - 1 if k is not None and 0 < k <= 8 else (1 << 64) - 1))
        return
    s.imprecise('write into unknown memory')


@fun('strncpy')
def f_strncpy(I, s, n, vs):
    d, src, k = vs
    t = I.norm(s, I.cstr(s, src, n))
    L = slen(t)
    if not is_num(k):
        s.imprecise('unknown count'); return [(s, d)]
    out = []
    # exactly k bytes are written
    for s2, lt in I.compare(s, '<', L, k, n):
        if lt:
            # text, then zeros up to k
            zeros = sub(k, L)
            r = buf_at(I, s2, d, n)
            if r is None:
                out.append((s2, d)); continue
            v, idx, setter = r
            if isinstance(v, CBuf):
                I.ob('bounds')
                need = add(idx, k)
                if not s2.ge0(sub(v.cap, need)):
                    t2 = s2.copy()
                    if t2.assume_ge0(sub(need, add(v.cap, 1))):
                        I.alarm(t2, 'oob-write', 'strncpy writes %s bytes at offset %s of a buffer of %s bytes' % (show_num(k), show_num(idx), show_num(v.cap)), n, (need, v.cap))
                    if not s2.assume_ge0(sub(v.cap, need)):
                        continue
                pre = I.cut(s2, v.txt if v.txt is not None else EMPTY, idx)[0]
                if not s2.eq(slen(pre), idx):
                    pre = Str((new_unk(frozenset(('uninit',)), idx),))
                setter(CBuf(v.cap, I.norm(s2, concat(pre, t)), True))
            else:
                s2.imprecise('strncpy target')
        else:
            x = I.cut(s2, t, k)[0]
            try:
                overwrite(I, s2, d, x, n)
            except Infeasible:
                continue
        out.append((s2, d))
    return out


@fun('strcpy', 'stpcpy')
def f_strcpy(I, s, n, vs):
    t = I.norm(s, I.cstr(s, vs[1], n))
    overwrite(I, s, vs[0], t, n, True)
    return [(s, vs[0])]


def append_c(I, s, d, t, n):
    r = buf_at(I, s, d, n)
    if r is None:
        return
    v, idx, setter = r
    if isinstance(v, CBuf):
        cur = I.cstr(s, d, n)
        end = slen(v.txt) if v.txt is not None else 0
        overwrite(I, s, Ptr(d.obj, d.path, True, end), t, n, True)
    else:
        s.imprecise('strcat target')


@fun('strcat')
def f_strcat(I, s, n, vs):
    append_c(I, s, vs[0], I.norm(s, I.cstr(s, vs[1], n)), n)
    return [(s, vs[0])]


@fun('strncat')
def f_strncat(I, s, n, vs):
    t = I.norm(s, I.cstr(s, vs[1], n))
    out = []
    for s2, x in prefix(I, s, t, vs[2], n):
        try:
            append_c(I, s2, vs[0], x, n)
        except Infeasible:
            continue
        out.append((s2, vs[0]))
    return out


@fun('memcpy', 'memmove')
def f_memcpy(I, s, n, vs):
    d, src, k = vs
    if not isinstance(src, Ptr):
        if src is NULL and is_num(k) and s.const(k) == 0:
            return [(s, d)]
        if src is NULL:
            I.deref(s, src, n)
        s.imprecise('memcpy from unknown')
        return [(s, d)]
    r = buf_at(I, s, src, n, 'read')
    if r is None:
        return [(s, d)]
    v, idx, _ = r
    if isinstance(v, (CBuf, Str)):
        if isinstance(v, CBuf):
            if v.txt is None:
                return [(s, d)]
            txt = v.txt; avail = v.cap
        else:
            txt = v; avail = add(slen(v), 1)
        I.ob('bounds')
        end = add(idx, k)
        if not s.ge0(sub(avail, end)):
            t = s.copy()
            if t.assume_ge0(sub(end, add(avail, 1))):
                I.alarm(t, 'oob-read', 'copies %s bytes from offset %s of a buffer of %s bytes' % (show_num(k), show_num(idx), show_num(avail)), n, (end, avail))
            if not s.assume_ge0(sub(avail, end)):
                return []
        L = slen(txt)
        if s.ge0(sub(L, end)):
            x = I.cut3(s, txt, idx, end)[1]
            overwrite(I, s, d, x, n)
            return [(s, d)]
        if s.eq(end, add(L, 1)) and (isinstance(v, Str) or v.term):
            x = I.cut(s, txt, idx)[1]
            overwrite(I, s, d, x, n, True)
            return [(s, d)]
        rb = buf_at(I, s, d, n)
        if rb is not None and isinstance(rb[0], CBuf):
            if not s.ge0(sub(rb[0].cap, add(rb[1], k))):
                t = s.copy()
                if t.assume_ge0(sub(add(rb[1], k), add(rb[0].cap, 1))):
                    I.alarm(t, 'oob-write', 'copies %s bytes to offset %s of a buffer of %s bytes' % (show_num(k), show_num(rb[1]), show_num(rb[0].cap)), n, (k, rb[0].cap))
            rb[2](CBuf(rb[0].cap, top_str(str_tags(txt)), False))
        return [(s, d)]
    # plain object copy: size checks by type are left to the callers that need them
    if isinstance(d, Ptr):
        if I.g is not None:
            r = I.g.on_memcpy(I, s, n, d, src, k)
            if r is not None:
                return r
        # same-sized objects
        try:
            if isinstance(v, (Rec, Arr)) or is_num(v):
                tgt = buf_at(I, s, d, n)
                if tgt is not None and type(tgt[0]) is type(v) and idx == 0 and tgt[1] == 0:
                    tgt[2](v)
                    return [(s, d)]
        except Infeasible:
            raise
        if d.obj in s.h:
            I.undec(s, 'memcpy between objects', n)
    return [(s, d)]


@fun('memset', 'bzero')
def f_memset(I, s, n, vs):
    d = vs[0]
    r = buf_at(I, s, d, n)
    if r is None:
        return [(s, d)]
    v, idx, setter = r
    k = vs[2] if n['q'] != 'bzero' else vs[1]
    c = vs[1] if n['q'] != 'bzero' else 0
    if isinstance(v, CBuf):
        need = add(idx, k)
        I.ob('bounds')
        if not s.ge0(sub(v.cap, need)):
            t = s.copy()
            if t.assume_ge0(sub(need, add(v.cap, 1))):
                I.alarm(t, 'oob-write', 'memset writes %s bytes at offset %s of a buffer of %s bytes' % (show_num(k), show_num(idx), show_num(v.cap)), n, (need, v.cap))
        if is_num(c) and s.const(c) == 0:
            if isinstance(idx, int) and idx == 0:
                setter(CBuf(v.cap, EMPTY, 'Z' if s.eq(k, v.cap) else True))
            else:
                setter(CBuf(v.cap, I.cut(s, v.txt or EMPTY, idx)[0], True))
        else:
            setter(CBuf(v.cap, top_str(), False))
        return [(s, d)]
    if isinstance(v, Rec) or v is UNDEF or is_num(v) or isinstance(v, Arr):
        if is_num(c) and s.const(c) == 0:
            if isinstance(v, Rec):
                setter(zero_like(I, v))
            elif isinstance(v, Arr):
                setter(Arr(v.n, 0, v.n, 0, (), v.kind))
            else:
                setter(0)
    return [(s, d)]


def zero_like(I, v):
    if isinstance(v, Rec):
        d = {k: zero_like(I, x) for k, x in v.f.items()}
        d['$zero'] = True
        return Rec(v.cls, d)
    if isinstance(v, Arr):
        return Arr(v.n, 0, v.n, 0, (), v.kind)
    if isinstance(v, CBuf):
        return CBuf(v.cap, EMPTY, 'Z')
    if isinstance(v, Ptr) or v is NULL:
        return NULL
    return 0


@fun('strdup')
def f_strdup(I, s, n, vs):
    t = I.norm(s, I.cstr(s, vs[0], n))
    oid = s.new_id('h')
    s.h[oid] = Obj('malloc', CBuf(add(slen(t), 1), t, True), 'alive', I.site(s, n, 'strdup'))
    return [(s, Ptr(oid, (), True, 0))]


@fun('malloc', 'calloc')
def f_malloc(I, s, n, vs):
    oid = s.new_id('h')
    k = vs[0]
    s.h[oid] = Obj('malloc', CBuf(k if is_num(k) else fresh('cap', 0, MAXLEN, True), EMPTY if n['q'].endswith('calloc') else None, 'Z' if n['q'].endswith('calloc') else False), 'alive', I.site(s, n, 'malloc'))
    return [(s, Ptr(oid, (), True, 0))]


@fun('free')
def f_free(I, s, n, vs):
    p = vs[0]
    I.ob('free')
    if p is NULL:
        return [(s, VOID)]
    if not isinstance(p, Ptr):
        s.imprecise('free of unknown')
        return [(s, VOID)]
    o = s.h.get(p.obj)
    if o is None or o.status != 'alive':
        I.alarm(s, 'double-free', 'memory released twice', n); return []
    if o.kind != 'malloc':
        I.alarm(s, 'mismatch', 'memory from new released with free', n); return []
    s.h[p.obj] = o.with_(status='freed', val=UNDEF)
    return [(s, VOID)]


@fun('strchr', 'strrchr', 'index', 'memchr')
def f_strchr(I, s, n, vs):
    t = I.norm(s, I.cstr(s, vs[0], n))
    pat = I.chr_str(s, vs[1])
    out = []
    last = n['q'].endswith('strrchr')
    for s2, r in find(I, s, t, pat, NPOS if last else 0, n, last):
        if isinstance(r, int) and r == NPOS:
            out.append((s2, NULL))
        else:
            p = vs[0]
            out.append((s2, Ptr(p.obj, p.path, True, add(p.idx if p.arr else 0, r))))
    return out


@fun('strpbrk')
def f_strpbrk(I, s, n, vs):
    t = I.norm(s, I.cstr(s, vs[0], n))
    pat = I.norm(s, I.cstr(s, vs[1], n))
    if not is_lit(pat):
        return None
    out = []
    for s2, r in find_set(I, s, t, frozenset(lbytes(pat)), 0, n):
        p = vs[0]
        out.append((s2, NULL if isinstance(r, int) and r == NPOS else Ptr(p.obj, p.path, True, add(p.idx if p.arr else 0, r))))
    return out


@fun('strstr')
def f_strstr(I, s, n, vs):
    t = I.norm(s, I.cstr(s, vs[0], n))
    pat = I.norm(s, I.cstr(s, vs[1], n))
    out = []
    for s2, r in find(I, s, t, pat, 0, n):
        if isinstance(r, int) and r == NPOS:
            out.append((s2, NULL))
        else:
            p = vs[0]
            out.append((s2, Ptr(p.obj, p.path, True, add(p.idx if p.arr else 0, r))))
    return out


@fun('strcspn', 'strspn')
def f_strspn(I, s, n, vs):
    t = I.norm(s, I.cstr(s, vs[0], n))
    pat = I.norm(s, I.cstr(s, vs[1], n))
    if is_lit(pat):
        return [(s2, slen(t) if isinstance(r, int) and r == NPOS else r) for s2, r in find_set(I, s, t, frozenset(lbytes(pat)), 0, n, n['q'].endswith('strspn'))]
    f = fresh('span', 0, MAXLEN)
    s.assume_ge0(sub(slen(t), f))
    return [(s, f)]


# -- characters
ISX = {'isspace': lambda c: c in b' \t\n\v\f\r', 'isdigit': lambda c: 48 <= c <= 57, 'isalpha': lambda c: chr(c).isalpha() and c < 128,
       'isalnum': lambda c: chr(c).isalnum() and c < 128, 'isupper': lambda c: 65 <= c <= 90, 'islower': lambda c: 97 <= c <= 122,
       'isprint': lambda c: 32 <= c < 127, 'iscntrl': lambda c: c < 32 or c == 127, 'isxdigit': lambda c: c in b'0123456789abcdefABCDEF',
       'ispunct': lambda c: 33 <= c < 127 and not chr(c).isalnum(), 'isblank': lambda c: c in b' \t', 'isgraph': lambda c: 33 <= c < 127}


def mk_is(nm, fn):
    def m(I, s, n, vs):
        v = vs[0]
        if not is_num(v):
            return [(s, fresh('is', 0, 1))]
        I.ob('ctype')
        c = s.const(v)
        if c is not None:
            return [(s, int(bool(-128 <= c < 256 and c >= 0 and fn(c))))]
        k = single(v)
        if k and k[1] == 1:
            out = []
            tr = iv_norm([(c - k[2], c - k[2]) for c in range(256) if fn(c)])
            fa = s.iv(k[0])
            a = iv_inter(fa, tr)
            b = fa
            for lo, hi in tr:
                for x in range(lo, hi + 1):
                    b = iv_remove(b, x)
            if a:
                t = s.copy(); t.cons[k[0]] = a
                out.append((t, 1))
            if b:
                s.cons[k[0]] = b
                out.append((s, 0))
            return out
        return [(s, fresh('is', 0, 1))]
    FUNCS[nm] = m; FUNCS['std::' + nm] = m


for _n, _f in ISX.items():
    mk_is(_n, _f)


def mk_to(nm, fn):
    def m(I, s, n, vs):
        v = vs[0]
        c = s.const(v) if is_num(v) else None
        if c is not None:
            return [(s, fn(c) if 0 <= c < 128 else c)]
        return [(s, fresh('ch', -128, 255))]
    FUNCS[nm] = m; FUNCS['std::' + nm] = m


mk_to('tolower', lambda c: ord(chr(c).lower()))
mk_to('toupper', lambda c: ord(chr(c).upper()))


# -- formatted output
def fmt(I, s, f, vs, nodes, n):
    """[(state, Str)] for a printf-like call"""
    import re
    if not is_lit(f):
        return [(s, top_str(str_tags(f)))]
    b = lbytes(f)
    out = EMPTY
    i = 0
    pos = 0
    for m in re.finditer(rb'%([-+ #0]*)(\*|\d+)?(\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diuxXcsfgeEpo%])', b):
        out = concat(out, lit(b[pos:m.start()]))
        pos = m.end()
        c = m.group(6)
        if c == b'%':
            out = concat(out, lit(b'%')); continue
        if m.group(2) == b'*':
            i += 1
        if m.group(4) == b'*':
            i += 1
        if i >= len(vs):
            return [(s, top_str())]
        v = vs[i]; i += 1
        if c == b's':
            t = I.norm(s, I.cstr(s, v, n))
            if m.group(4) and m.group(4) != b'*':
                L = slen(t); k = int(m.group(4))
                if not s.ge0(sub(k, L)):
                    f2 = fresh('prec', 0, k)
                    s.assume_ge0(sub(L, f2))
                    t = Str((new_unk(str_tags(t), f2, str_cs(t)),))
            elif m.group(4):
                t = top_str(str_tags(t))
            if m.group(2):
                t = top_str(str_tags(t))
            out = concat(out, t)
        elif c in b'diu':
            out = concat(out, num_str(s, v))
        elif c == b'c':
            out = concat(out, I.chr_str(s, v))
        else:
            out = concat(out, Str((new_unk(frozenset(), fresh('digits', 1, 400)),)))
    out = concat(out, lit(b[pos:]))
    return [(s, out)]


def num_str(s, v):
    if is_num(v):
        c = s.const(v)
        if c is not None:
            return lit(str(c))
        lo, hi = s.bounds(v)
        mx = max(len(str(lo)), len(str(hi))) if abs(lo) < INF and abs(hi) < INF else 20
        return Str((Seg(('f', 'num', v), 0, sym(('len', ('f', 'num', v)), 1, min(mx, 20))),))
    return Str((new_unk(getattr(v, 'tags', frozenset()), fresh('digits', 1, 20), frozenset(b'-0123456789')),))


@fun('sprintf')
def f_sprintf(I, s, n, vs):
    f = I.cstr(s, vs[1], n)
    out = []
    for s2, t in fmt(I, s, f, vs[2:], n['args'][2:], n):
        try:
            overwrite(I, s2, vs[0], t, n, True)
        except Infeasible:
            continue
        out.append((s2, slen(t)))
    return out


@fun('snprintf')
def f_snprintf(I, s, n, vs):
    f = I.cstr(s, vs[2], n)
    out = []
    k = vs[1]
    for s2, t in fmt(I, s, f, vs[3:], n['args'][3:], n):
        L = slen(t)
        for s3, fits in I.compare(s2, '<', L, k, n):
            try:
                x = t if fits else I.cut(s3, t, sub(k, 1))[0]
                if not fits and s3.const(k) == 0:
                    out.append((s3, L)); continue
                overwrite(I, s3, vs[0], x, n, True)
            except Infeasible:
                continue
            out.append((s3, L))
    return out


@fun('printf', 'puts', 'putchar', 'perror', 'putc', 'fputc')
def f_printf(I, s, n, vs):
    if n['q'].endswith('printf'):
        for s2, t in fmt(I, s, I.cstr(s, vs[0], n), vs[1:], n['args'][1:], n):
            console(I, s2, t, n)
    else:
        if isinstance(vs[0], Ptr):
            console(I, s, I.cstr(s, vs[0], n), n)
    return [(s, fresh('r', -1, MAXLEN))]


@fun('fprintf')
def f_fprintf(I, s, n, vs):
    for s2, t in fmt(I, s, I.cstr(s, vs[1], n), vs[2:], n['args'][2:], n):
        console(I, s2, t, n)
    return [(s, fresh('r', -1, MAXLEN))]


@fun('fputs')
def f_fputs(I, s, n, vs):
    console(I, s, I.cstr(s, vs[0], n), n)
    return [(s, fresh('r', -1, MAXLEN))]


@fun('fflush', 'fclose')
def f_fflush(I, s, n, vs):
    return [(s, fresh('r', -1, 0))]


@fun('syslog')
def f_syslog(I, s, n, vs):
    for s2, t in fmt(I, s, I.cstr(s, vs[1], n), vs[2:], n['args'][2:], n):
        console(I, s2, t, n)
    return [(s, VOID)]


def console(I, s, t, n):
    if I.g is not None:
        I.g.on_console(I, s, t, n)


@fun('atoi', 'atol', 'strtol', 'strtoul')
def f_atoi(I, s, n, vs):
    t = I.norm(s, I.cstr(s, vs[0], n))
    if len(vs) > 1 and isinstance(vs[1], Ptr):
        f = fresh('end', 0, MAXLEN)
        I.store(s, vs[1], Ptr(vs[0].obj, vs[0].path, True, f), n)
    return stoi_val(I, s, t, n, False)


def stoi_val(I, s, t, n, throws):
    if is_lit(t):
        import re
        m = re.match(rb'\s*([-+]?\d+)', lbytes(t))
        if m:
            return [(s, int(m.group(1)))]
        return throw(s, 'std::invalid_argument', n) if throws else [(s, 0)]
    L = slen(t)
    hi = (1 << 31) - 1
    lo = -(1 << 31)
    c = s.const(L)
    if c is not None and c < 10:
        hi = 10 ** c - 1; lo = -(10 ** max(c - 1, 0) - 1)
    p = t.p[0]
    if len(t.p) == 1 and isinstance(p, Seg):
        h = getattr(I.g, 'reply_code', None)
        v = h(s, p) if h is not None and p.src[0] == 'rep' else None
        if v is None:
            v = sym(('stoi', p.src, p.off, p.n), lo, hi)
    else:
        v = fresh('stoi', lo, hi)
    out = []
    if throws and is_num(v) and s.const(v) is None:
        x = s.copy()
        out.extend(throw(x, 'std::invalid_argument', n))
    out.append((s, v))
    return out


@fun('std::stoi', 'std::stol', 'std::stoul', 'std::stoll', 'std::stoull')
def f_stoi(I, s, n, vs):
    return stoi_val(I, s, T(I, s, vs[0], n['args'][0], n), n, True)


@fun('std::to_string')
def f_to_string(I, s, n, vs):
    return [(s, num_str(s, vs[0]))]


@fun('strerror', 'gai_strerror', 'hstrerror')
def f_strerror(I, s, n, vs):
    v = vs[0]
    return [(s, Ptr(('L', Str((Seg(('f', 'strerror', v if is_num(v) else 0), 0, sym(('len', ('strerror',)), 1, 200)),))), (), True, 0))]


@fun('__errno_location')
def f_errno(I, s, n, vs):
    oid = ('g', 'errno')
    if oid not in s.h:
        s.h[oid] = Obj('glob', sym(('errno0',), 0, 4095))
    return [(s, Ptr(oid))]


@fun('getenv')
def f_getenv(I, s, n, vs):
    return [(s, NULL), (s.copy(), Ptr(('L', full(('in', 'env'))), (), True, 0))]


@fun('abort', 'exit', '_exit', 'terminate', 'std::terminate')
def f_abort(I, s, n, vs):
    if I.g is not None:
        I.g.on_abort(I, s, n)
    return []


@fun('time')
def f_time(I, s, n, vs):
    return [(s, fresh('time', 0, 1 << 40))]


@fun('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::__addressof', 'std::ref', 'std::cref', 'std::move_if_noexcept')
def f_move(I, s, n, vs):
    return [(s, vs[0])]


@fun('std::min', 'std::max')
def f_min(I, s, n, vs):
    if len(vs) < 2:
        return None
    a = lval(I, s, vs[0], n['args'][0], n); b = lval(I, s, vs[1], n['args'][1], n)
    out = []
    ismin = n['q'].endswith('min')
    x, y = (b, a) if ismin else (a, b)
    for s2, lt in I.compare(s, '<', x, y, n):
        r = vs[1] if lt else vs[0]
        out.append((s2, r))
    return out


@fun('std::swap')
def f_swap(I, s, n, vs):
    a = I.getpath(s, I.base(s, vs[0], n).val, vs[0].path, n); b = I.getpath(s, I.base(s, vs[1], n).val, vs[1].path, n)
    t = nref(n['args'][0]['t'])
    if t.k == 'rec' and t.repo:
        # move construct / assign in the class: copies the abstract value only when the class has no special members
        if any(m.get('body') for m in ()):
            pass
    I.store(s, vs[0], b, n); I.store(s, vs[1], a, n)
    return [(s, VOID)]


@fun('std::exchange')
def f_exchange(I, s, n, vs):
    old = I.load(s, vs[0], n)
    new = vs[1]
    t = nref(n['args'][0]['t'])
    if isinstance(new, Ptr) and n['args'][1].get('g') :
        new = I.load(s, new, n) if not (n['args'][1]['t'].k == 'nullptr') else NULL
    if n['args'][1]['t'] is not None and n['args'][1]['t'].k == 'nullptr':
        new = NULL
    if t is not None and t.bool and is_num(new):
        c = s.const(new)
        new = bool(c) if c is not None else new
    I.store(s, vs[0], new, n)
    return [(s, old)]


@fun('std::numeric_limits::max')
def f_nmax(I, s, n, vs):
    r = n['t'].rng()
    return [(s, r[1])] if r else [(s, fresh('max', 0, INF))]


@fun('std::numeric_limits::min', 'std::numeric_limits::lowest')
def f_nmin(I, s, n, vs):
    r = n['t'].rng()
    return [(s, r[0])] if r else [(s, fresh('min', -INF, 0))]


@fun('std::operator""s', 'std::literals::string_literals::operator""s', 'std::operator""sv')
def f_lits(I, s, n, vs):
    t = buf_slice(I, s, vs[0], vs[1] if len(vs) > 1 else None, n)
    return [(s, t)]


def buf_slice(I, s, p, k, n):
    """k characters at p (not necessarily terminated)"""
    if k is None:
        return I.norm(s, I.cstr(s, p, n))
    if is_num(k) and s.const(k) == 0:
        return EMPTY
    r = buf_at(I, s, p, n, 'read')
    if r is None:
        return top_str()
    v, idx, _ = r
    if isinstance(v, CBuf):
        txt = v.txt; cap = v.cap
        if txt is None:
            I.alarm(s, 'uninit', 'reads a buffer nothing was written to', n)
            return top_str()
    elif isinstance(v, Str):
        txt = v; cap = add(slen(v), 1)
    elif isinstance(v, Arr):
        # array of small integers holding characters
        return top_str()
    else:
        return top_str(getattr(v, 'tags', frozenset()))
    I.ob('bounds')
    end = add(idx, k)
    if not s.ge0(sub(cap, end)):
        t = s.copy()
        if t.assume_ge0(sub(end, add(cap, 1))):
            I.alarm(t, 'oob-read', 'reads %s bytes at offset %s of a buffer of %s bytes' % (show_num(k), show_num(idx), show_num(cap)), n, (end, cap))
        if not s.assume_ge0(sub(cap, end)):
            raise Infeasible('overread')
    L = slen(txt)
    if s.ge0(sub(L, end)):
        return I.norm(s, I.cut3(s, txt, idx, end)[1])
    rest = I.cut(s, txt, idx)[1]
    if s.ge0(sub(end, L)):
        return concat(rest, Str((Unk(('pad',), sub(end, L), frozenset(), frozenset((0,)) if isinstance(v, Str) or v.term else ALLCH),)))
    return top_str(str_tags(rest))


@fun('std::regex_match', 'std::regex_search')
def f_regex(I, s, n, vs):
    t = T(I, s, vs[0], n['args'][0], n)
    out = []
    rx = None
    for v in vs[1:]:
        pv = I.peek(s, v) if isinstance(v, Ptr) else None
        if isinstance(pv, Rec) and 'pat' in pv.f:
            rx = pv.f['pat']
    a = s.copy()
    key = ('K', 'match')
    def single(x):
        while isinstance(x, Str) and len(x.p) == 1 and isinstance(x.p[0], Seg):
            x = x.p[0].src[2] if x.p[0].src[0] == 'f' else x.p[0].src
        return isinstance(x, tuple) and x[0] == 'in'
    if getattr(I, 'track_match', False) and single(t) and n['q'].endswith('regex_match') and isinstance(rx, Str) and is_lit(rx):
        o = a.h.get(key)
        cur = o.val.v if o is not None else frozenset()
        a.h[key] = Obj('ghost', Disc(cur | {(t, lbytes(rx))}))
    out.append((a, True))
    out.append((s, False))
    return out


def ctor_regex(I, s, n, vs):
    if vs and n['args'] and n['pt'][0].k == 'ptr':
        return [(s, Rec('std::basic_regex', {'pat': I.cstr(s, vs[0], n)}))]
    if vs and nref(n['pt'][0]).q in STRCLS:
        return [(s, Rec('std::basic_regex', {'pat': S_at(I, s, vs[0], n)}))]
    return [(s, Rec('std::basic_regex', {}))]


CTORS['std::basic_regex'] = ctor_regex


# ---------------------------------------------------------------- std::string
def ctor_string(I, s, n, vs):
    a = n['args']; pt = [nref(p) for p in n['pt']]
    while pt and pt[-1].k == 'rec' and pt[-1].q == 'std::allocator':
        pt = pt[:-1]; vs = vs[:-1]; a = a[:-1]
    if not pt:
        return [(s, EMPTY)]
    p0 = pt[0]
    if p0.k == 'rec' and (p0.q in STRCLS or p0.q in SVCLS or p0.q == n['cls']):
        t = S_at(I, s, vs[0], n)
        if len(vs) >= 2:
            return substr(I, s, t, vs[1], vs[2] if len(vs) > 2 else NPOS, n)
        if n.get('move') and isinstance(vs[0], Ptr):
            moved_from(I, s, vs[0], n)
        return [(s, I.norm(s, t))]
    if p0.k == 'ptr' and (len(pt) == 1):
        if vs[0] is NULL:
            I.deref(s, vs[0], n, 'std::string construction')
        return [(s, I.norm(s, I.cstr(s, vs[0], n)))]
    if p0.k == 'ptr' and pt[1].k == 'int':
        return [(s, buf_slice(I, s, vs[0], vs[1], n))]
    if p0.k == 'ptr' and pt[1].k == 'ptr' or p0.k == 'rec' and len(vs) > 1 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr):
        x, y = vs[0], vs[1]
        x = itv(I, s, x, a[0], n); y = itv(I, s, y, a[1], n)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
            return [(s, buf_slice(I, s, x, sub(y.idx, x.idx), n))]
        return [(s, top_str())]
    if p0.k == 'int' and len(pt) > 1 and pt[1].k == 'int':
        k, c = vs[0], vs[1]
        ck = s.const(k) if is_num(k) else None
        cc = s.const(c) if is_num(c) else None
        if ck is not None and cc is not None and ck <= 4096:
            return [(s, lit(bytes([cc & 255]) * ck))]
        return [(s, Str((new_unk(frozenset(), k if is_num(k) else None, frozenset((cc & 255,)) if cc is not None else None),)))]
    if p0.k == 'rec' and p0.q == 'std::initializer_list':
        return [(s, top_str())]
    return [(s, top_str())]


def moved_from(I, s, p, n):
    pass


CTORS['std::basic_string'] = ctor_string
CTORS['std::basic_string_view'] = ctor_string


def itv(I, s, v, node, n):
    """iterator value: iterators are pointers; an lvalue iterator object is loaded"""
    if isinstance(v, Ptr):
        t = nref(node['t']) if node is not None and node.get('t') is not None else None
        if t is not None and t.k == 'rec':
            x = I.peek(s, v)
            if isinstance(x, Ptr) or isinstance(x, Rec) and x.cls == '$rit' or x is NULL:
                return x
    return v


def substr(I, s, t, pos, cnt, n):
    L = slen(t)
    out = []
    if not is_num(pos):
        return [(s, top_str(str_tags(t)))]
    I.ob('substr')
    for s2, bad in I.compare(s, '<', L, pos, n):
        if bad:
            out.extend(throw(s2, 'std::out_of_range', n)); continue
        if not is_num(cnt):
            out.append((s2, top_str(str_tags(t)))); continue
        rest = I.cut(s2, t, pos)[1]
        if isinstance(cnt, int) and cnt >= NPOS // 2:
            out.append((s2, I.norm(s2, rest))); continue
        for s3, lt in I.compare(s2, '<', sub(L, pos), cnt, n):
            r = I.cut(s3, t, pos)[1]
            out.append((s3, I.norm(s3, r if lt else I.cut(s3, r, cnt)[0])))
    return out


STR2 = tuple(STRCLS | SVCLS)


@meth(STR2, 'c_str', 'data', 'begin', 'cbegin')
def m_cstr(I, s, n, o, vs):
    S_at(I, s, o, n)
    return [(s, Ptr(o.obj, o.path + ((('e', o.idx),) if o.arr else ()), True, 0))]


@meth(STR2, 'end', 'cend')
def m_send(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    return [(s, Ptr(o.obj, o.path + ((('e', o.idx),) if o.arr else ()), True, slen(t)))]


@meth(STR2, 'rbegin', 'crbegin')
def m_rbegin(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    return [(s, Rec('$rit', {'p': Ptr(o.obj, o.path, True, slen(t))}))]


@meth(STR2, 'rend', 'crend')
def m_rend(I, s, n, o, vs):
    return [(s, Rec('$rit', {'p': Ptr(o.obj, o.path, True, 0)}))]


@meth(STR2, 'size', 'length')
def m_size(I, s, n, o, vs):
    return [(s, slen(I.norm(s, S_at(I, s, o, n))))]


@meth(STR2, 'empty')
def m_empty(I, s, n, o, vs):
    return I.compare(s, '==', slen(I.norm(s, S_at(I, s, o, n))), 0, n)


@meth(STR2, 'capacity', 'max_size')
def m_cap(I, s, n, o, vs):
    f = fresh('cap', 0, NPOS)
    s.assume_ge0(sub(f, slen(S_at(I, s, o, n))))
    return [(s, f)]


@meth(STR2, 'reserve', 'shrink_to_fit')
def m_reserve(I, s, n, o, vs):
    return [(s, VOID)]


@meth(STR2, 'clear')
def m_clear(I, s, n, o, vs):
    I.store(s, o, EMPTY, n)
    return [(s, VOID)]


@meth(STR2, 'operator[]', 'at')
def m_idx(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    L = slen(t)
    i = vs[0]
    p = Ptr(o.obj, o.path + ((('e', o.idx),) if o.arr else ()), True, i)
    if not is_num(i):
        s.imprecise('unknown index')
        return [(s, Top('index'))]
    if n['q'].endswith('::at'):
        out = []
        for s2, lt in I.compare(s, '<', i, L, n):
            if lt:
                out.append((s2, p))
            else:
                out.extend(throw(s2, 'std::out_of_range', n))
        return out
    I.chk_idx(s, L, i, n, 'oob-read', incl=True)
    return [(s, p)]


@meth(STR2, 'front')
def m_front(I, s, n, o, vs):
    I.chk_idx(s, slen(S_at(I, s, o, n)), 0, n, 'oob-read')
    return [(s, Ptr(o.obj, o.path, True, 0))]


@meth(STR2, 'back')
def m_back(I, s, n, o, vs):
    L = slen(S_at(I, s, o, n))
    I.chk_idx(s, L, sub(L, 1), n, 'oob-read')
    return [(s, Ptr(o.obj, o.path, True, sub(L, 1)))]


def sarg(I, s, vs, a, n, i=0):
    """text given by arguments i.. of append/assign/insert: (text list of (state,text))"""
    t = nref(a[i]['t'])
    v = vs[i]
    if t.k == 'int' and len(vs) > i + 1:
        k = vs[i]; c = vs[i + 1]
        ck = s.const(k) if is_num(k) else None; cc = s.const(c) if is_num(c) else None
        if ck is not None and cc is not None and ck <= 4096:
            return [(s, lit(bytes([cc & 255]) * ck))]
        return [(s, Str((new_unk(frozenset(), k if is_num(k) else None, frozenset((cc & 255,)) if cc is not None else None),)))]
    if t.k == 'ptr' and len(vs) > i + 1 and is_num(vs[i + 1]):
        return [(s, buf_slice(I, s, v, vs[i + 1], n))]
    if t.k == 'ptr' and len(vs) > i + 1 and isinstance(vs[i + 1], Ptr) and nref(a[i + 1]['t']).k == 'ptr':
        return [(s, buf_slice(I, s, v, sub(vs[i + 1].idx, v.idx), n))]
    if t.k == 'rec' and t.q not in STRCLS and t.q not in SVCLS and len(vs) > i + 1:
        x = itv(I, s, v, a[i], n); y = itv(I, s, vs[i + 1], a[i + 1], n)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
            return [(s, buf_slice(I, s, x, sub(y.idx, x.idx), n))]
        return [(s, top_str())]
    if t.k == 'rec' and len(vs) > i + 1:
        return substr(I, s, S_at(I, s, v, n), vs[i + 1], vs[i + 2] if len(vs) > i + 2 else NPOS, n)
    return [(s, T(I, s, v, a[i], n))]


@meth(STR2, 'append', 'operator+=')
def m_append(I, s, n, o, vs):
    out = []
    for s2, t in sarg(I, s, vs, n['args'], n):
        if s2.exc is None:
            setS(I, s2, o, concat(S_at(I, s2, o, n), t), n)
        out.append((s2, o if s2.exc is None else None))
    return out


@meth(STR2, 'push_back')
def m_push(I, s, n, o, vs):
    setS(I, s, o, concat(S_at(I, s, o, n), I.chr_str(s, val(I, s, vs[0], n['args'][0], n))), n)
    return [(s, VOID)]


@meth(STR2, 'pop_back')
def m_pop(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    L = slen(t)
    I.chk_idx(s, L, sub(L, 1), n, 'oob-write')
    setS(I, s, o, I.cut(s, t, sub(L, 1))[0], n)
    return [(s, VOID)]


@meth(STR2, 'operator=', 'assign')
def m_assign(I, s, n, o, vs):
    out = []
    for s2, t in sarg(I, s, vs, n['args'], n):
        if s2.exc is None:
            setS(I, s2, o, t, n)
        out.append((s2, o if s2.exc is None else None))
    return out


@meth(STR2, 'substr')
def m_substr(I, s, n, o, vs):
    return substr(I, s, S_at(I, s, o, n), vs[0] if vs else 0, vs[1] if len(vs) > 1 else NPOS, n)


def fargs(I, s, n, vs, dpos):
    a = n['args']
    pos = vs[1] if len(vs) > 1 else dpos
    t = nref(a[0]['t'])
    if t.k == 'ptr' and len(vs) > 2:
        return buf_slice(I, s, vs[0], vs[2], n), pos
    return T(I, s, vs[0], a[0], n), pos


@meth(STR2, 'find')
def m_find(I, s, n, o, vs):
    pat, pos = fargs(I, s, n, vs, 0)
    return find(I, s, S_at(I, s, o, n), pat, pos, n)


@meth(STR2, 'rfind')
def m_rfind(I, s, n, o, vs):
    pat, pos = fargs(I, s, n, vs, NPOS)
    t = S_at(I, s, o, n)
    if isinstance(pos, int) and pos == 0:
        # prefix test
        out = []
        for s2, pre in prefix(I, s, t, slen(pat), n):
            for s3, e in txt_eq(I, s2, pre, pat, n):
                out.append((s3, 0 if e else NPOS))
        return out
    return find(I, s, t, pat, pos, n, True)


@meth(STR2, 'starts_with')
def m_starts(I, s, n, o, vs):
    pat = T(I, s, vs[0], n['args'][0], n)
    out = []
    for s2, pre in prefix(I, s, S_at(I, s, o, n), slen(pat), n):
        out.extend(txt_eq(I, s2, pre, pat, n))
    return out


@meth(STR2, 'ends_with')
def m_ends(I, s, n, o, vs):
    pat = T(I, s, vs[0], n['args'][0], n)
    t = S_at(I, s, o, n)
    L, k = slen(t), slen(pat)
    out = []
    for s2, lt in I.compare(s, '<', L, k, n):
        if lt:
            out.append((s2, False))
        else:
            out.extend(txt_eq(I, s2, I.cut(s2, t, sub(L, k))[1], pat, n))
    return out


@meth(STR2, 'contains')
def m_contains(I, s, n, o, vs):
    pat = T(I, s, vs[0], n['args'][0], n)
    return [(s2, not (isinstance(r, int) and r == NPOS)) for s2, r in find(I, s, S_at(I, s, o, n), pat, 0, n)]


def mk_findset(nm, neg, last):
    @meth(STR2, nm)
    def m(I, s, n, o, vs):
        pat, pos = fargs(I, s, n, vs, NPOS if last else 0)
        if not is_lit(pat):
            return None
        return find_set(I, s, S_at(I, s, o, n), frozenset(lbytes(pat)), pos, n, neg, last)


mk_findset('find_first_of', False, False)
mk_findset('find_last_of', False, True)
mk_findset('find_first_not_of', True, False)
mk_findset('find_last_not_of', True, True)


@meth(STR2, 'compare')
def m_compare(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    out = []
    if len(vs) >= 3:
        starts = substr(I, s, t, vs[0], vs[1], n)
        a = n['args'][2]; v = vs[2]
    else:
        starts = [(s, t)]
        a = n['args'][0]; v = vs[0]
    for s2, x in starts:
        if s2.exc is not None:
            out.append((s2, None)); continue
        y = T(I, s2, v, a, n)
        for s3, e in txt_eq(I, s2, x, y, n):
            if e:
                out.append((s3, 0))
            else:
                f = fresh('cmp', -255, 255); s3.assume_ne0(f)
                out.append((s3, f))
    return out


@meth(STR2, 'erase')
def m_erase(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    a = n['args']
    if vs and nref(a[0]['t']).k == 'rec':
        x = itv(I, s, vs[0], a[0], n)
        if len(vs) == 1:
            i, j = (x.idx, add(x.idx, 1)) if isinstance(x, Ptr) else (None, None)
        else:
            y = itv(I, s, vs[1], a[1], n)
            i = x.idx if isinstance(x, Ptr) else None
            j = y.idx if isinstance(y, Ptr) else None
        if i is None or j is None:
            setS(I, s, o, top_str(str_tags(t)), n)
            return [(s, Ptr(o.obj, o.path, True, 0))]
        setS(I, s, o, concat(I.cut(s, t, i)[0], I.cut(s, t, j)[1]), n)
        return [(s, Ptr(o.obj, o.path, True, i))]
    pos = vs[0] if vs else 0
    cnt = vs[1] if len(vs) > 1 else NPOS
    L = slen(t)
    out = []
    for s2, bad in I.compare(s, '<', L, pos, n):
        if bad:
            out.extend(throw(s2, 'std::out_of_range', n)); continue
        left = I.cut(s2, t, pos)[0]
        if isinstance(cnt, int) and cnt >= NPOS // 2:
            setS(I, s2, o, left, n); out.append((s2, o)); continue
        for s3, lt in I.compare(s2, '<', sub(L, pos), cnt, n):
            l3 = I.cut(s3, t, pos)[0]
            setS(I, s3, o, l3 if lt else concat(l3, I.cut(s3, t, add(pos, cnt))[1]), n)
            out.append((s3, o))
    return out


@meth(STR2, 'replace')
def m_replace(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    a = n['args']
    if len(vs) >= 3 and is_num(vs[0]) and is_num(vs[1]) and nref(a[0]['t']).k == 'int':
        out = []
        L = slen(t)
        for s0, r in sarg(I, s, vs, a, n, 2):
            for s2, bad in I.compare(s0, '<', L, vs[0], n):
                if bad:
                    out.extend(throw(s2, 'std::out_of_range', n)); continue
                for s3, lt in I.compare(s2, '<', sub(L, vs[0]), vs[1], n):
                    left = I.cut(s3, t, vs[0])[0]
                    right = EMPTY if lt else I.cut(s3, t, add(vs[0], vs[1]))[1]
                    setS(I, s3, o, concat(concat(left, r), right), n)
                    out.append((s3, o))
        return out
    return None


@meth(STR2, 'insert')
def m_insert(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    if is_num(vs[0]) and len(vs) >= 2:
        L = slen(t)
        out = []
        for s0, r in sarg(I, s, vs, n['args'], n, 1):
            for s2, bad in I.compare(s0, '<', L, vs[0], n):
                if bad:
                    out.extend(throw(s2, 'std::out_of_range', n)); continue
                a, b = I.cut(s2, t, vs[0])
                setS(I, s2, o, concat(concat(a, r), b), n)
                out.append((s2, o))
        return out
    return None


@meth(STR2, 'resize')
def m_resize(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    L = slen(t)
    k = vs[0]
    if not is_num(k):
        setS(I, s, o, top_str(str_tags(t)), n)
        return [(s, VOID)]
    c = vs[1] if len(vs) > 1 else 0
    cc = s.const(c) if is_num(c) else None
    out = []
    for s2, grow in I.compare(s, '<', L, k, n):
        if grow:
            pad = sub(k, L)
            cp = s2.const(pad)
            if cp is not None and cp <= 64 and cc is not None:
                x = lit(bytes([cc & 255]) * cp)
            else:
                x = Str((Unk(('fill', cc), pad, frozenset(), frozenset((cc & 255,)) if cc is not None else None),))
            setS(I, s2, o, concat(t, x), n)
        else:
            setS(I, s2, o, I.cut(s2, t, k)[0], n)
        out.append((s2, VOID))
    return out


@meth(STR2, 'swap')
def m_sswap(I, s, n, o, vs):
    a = S_at(I, s, o, n); b = S_at(I, s, vs[0], n)
    I.store(s, o, b, n); I.store(s, vs[0], a, n)
    return [(s, VOID)]


@meth(STR2, 'remove_prefix')
def m_rmp(I, s, n, o, vs):
    setS(I, s, o, I.cut(s, S_at(I, s, o, n), vs[0])[1], n)
    return [(s, VOID)]


@meth(STR2, 'remove_suffix')
def m_rms(I, s, n, o, vs):
    t = S_at(I, s, o, n)
    setS(I, s, o, I.cut(s, t, sub(slen(t), vs[0]))[0], n)
    return [(s, VOID)]


@meth(STR2, 'operator basic_string_view', 'operator std::basic_string_view', 'operator __sv_type')
def m_tosv(I, s, n, o, vs):
    return [(s, S_at(I, s, o, n))]


def is_text(t):
    t = nref(t)
    return t is not None and (t.k == 'rec' and (t.q in STRCLS or t.q in SVCLS) or t.k == 'ptr' and t.to is not None and t.to.ch or t.k == 'arr' and t.to.ch)


def op_plus(I, s, n, vs):
    a = n['args']
    if any(nref(x['t']).k == 'rec' and (nref(x['t']).q in STRCLS or nref(x['t']).q in SVCLS) for x in a):
        return [(s, I.norm(s, concat(T(I, s, vs[0], a[0], n), T(I, s, vs[1], a[1], n))))]
    if nref(a[0]['t']).k == 'rec':
        x = itv(I, s, vs[0], a[0], n)
        if isinstance(x, Ptr):
            return [(s, I.ptr_add(s, x, vs[1], n))]
    return None


OPS['+'] = op_plus


def op_minus(I, s, n, vs):
    a = n['args']
    x = itv(I, s, vs[0], a[0], n); y = itv(I, s, vs[1], a[1], n)
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
        return [(s, sub(x.idx, y.idx))]
    if isinstance(x, Ptr) and is_num(y):
        return [(s, I.ptr_add(s, x, neg(y), n))]
    return None


OPS['-'] = op_minus


def op_eq(I, s, n, vs):
    a = n['args']
    ne = n.get('op') == '!='
    if is_text(a[0]['t']) and is_text(a[1]['t']):
        r = txt_eq(I, s, T(I, s, vs[0], a[0], n), T(I, s, vs[1], a[1], n), n)
    elif nref(a[0]['t']).k == 'nullptr' or nref(a[1]['t']).k == 'nullptr':
        # smart pointer against nullptr
        i = 1 if nref(a[0]['t']).k == 'nullptr' else 0
        v = I.peek(s, vs[i]) if isinstance(vs[i], Ptr) else vs[i]
        p = v.f.get('p') if isinstance(v, Rec) else v
        r = I.compare(s, '==', p, NULL, n)
    else:
        x = itv(I, s, vs[0], a[0], n); y = itv(I, s, vs[1], a[1], n)
        if isinstance(x, Rec) and x.cls == '$rit' and isinstance(y, Rec):
            x, y = x.f['p'], y.f['p']
        if isinstance(x, Ptr) and isinstance(y, Ptr) or is_num(x) and is_num(y):
            r = I.compare(s, '==', x, y, n)
        elif nref(a[0]['t']).k == 'int' and is_num(vs[0]):
            r = I.compare(s, '==', vs[0], vs[1], n)
        else:
            s.imprecise('comparison of objects')
            r = [(s, True), (s.copy(), False)]
    return [(s2, (not b) if ne else b) for s2, b in r]


OPS['=='] = op_eq
OPS['!='] = op_eq


def op_lt(I, s, n, vs):
    a = n['args']
    x = itv(I, s, vs[0], a[0], n); y = itv(I, s, vs[1], a[1], n)
    if isinstance(x, Ptr) and isinstance(y, Ptr) and nref(a[0]['t']).q not in STRCLS:
        return I.compare(s, n['op'], x, y, n)
    return [(s, True), (s.copy(), False)]


for _o in ('<', '>', '<=', '>='):
    OPS[_o] = op_lt


def op_or(I, s, n, vs):
    if all(is_num(v) for v in vs):
        a, b = s.const(vs[0]), s.const(vs[1])
        if a is not None and b is not None:
            return [(s, a | b if n['op'] == '|' else a & b)]
    return [(s, fresh('flags', 0, 1 << 30))]


OPS['|'] = op_or
OPS['&'] = op_or


# ---------------------------------------------------------------- streams
def stream_obj(I, s, p):
    v = I.peek(s, p) if isinstance(p, Ptr) else None
    return v if isinstance(v, Rec) and 'buf' in v.f else None


def put(I, s, p, t, n):
    r = stream_obj(I, s, p)
    if r is not None:
        I.store(s, p, r.with_('buf', I.norm(s, concat(r.f['buf'], t))), n)
        return
    nm = ''
    if isinstance(p, Ptr) and p.obj[0] == 'g':
        g = I.P.globals.get(p.obj[1])
        nm = g['q'] if g else str(p.obj[1])
    v = I.peek(s, p) if isinstance(p, Ptr) else None
    if isinstance(v, Rec) and v.cls in ('std::basic_ofstream', 'std::basic_fstream'):
        return
    console(I, s, t, n)


def op_shl(I, s, n, vs):
    a = n['args']
    if len(vs) != 2:
        return None
    t = nref(a[1]['t'])
    l = nref(a[0]['t'])
    if l.k != 'rec':
        return None
    return shl(I, s, vs[0], vs[1], a[1], n)


def shl(I, s, o, v, node, n):
    t = nref(node['t'])
    if isinstance(v, (Fn, MFn)):
        if (v.q or '').split('::')[-1] in ('endl',):
            put(I, s, o, lit('\n'), n)
        return [(s, o)]
    if t.k == 'rec' and t.q not in STRCLS and t.q not in SVCLS:
        # manipulators such as setw
        return [(s, o)]
    if is_text(t) or t.k == 'int' and t.ch:
        put(I, s, o, T(I, s, v, node, n), n)
    elif t.k == 'int':
        v = val(I, s, v, node, n)
        if t.bool:
            out = []
            for s2, b in I.truth(s, v, n):
                put(I, s2, o, lit('1' if b else '0'), n)
                out.append((s2, o))
            return out
        put(I, s, o, num_str(s, v), n)
    else:
        put(I, s, o, Str((new_unk(I.tags_of(s, v)),)), n)
    return [(s, o)]


OPS['<<'] = op_shl
OSCLS = ('std::basic_ostream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ofstream', 'std::basic_iostream')


@meth(OSCLS, 'operator<<')
def m_shl(I, s, n, o, vs):
    return shl(I, s, o, vs[0], n['args'][0], n)


@meth(OSCLS, 'write')
def m_write(I, s, n, o, vs):
    put(I, s, o, buf_slice(I, s, vs[0], vs[1], n), n)
    return [(s, o)]


@meth(OSCLS, 'put')
def m_put(I, s, n, o, vs):
    put(I, s, o, I.chr_str(s, vs[0]), n)
    return [(s, o)]


@meth(OSCLS, 'flush')
def m_flush(I, s, n, o, vs):
    return [(s, o)]


@meth(OSCLS + ('std::basic_ifstream', 'std::basic_fstream', 'std::basic_istream'), 'close', 'open')
def m_close(I, s, n, o, vs):
    return [(s, VOID)]


@meth(tuple(SSCLS), 'str')
def m_str(I, s, n, o, vs):
    r = stream_obj(I, s, o)
    if vs:
        t = T(I, s, vs[0], n['args'][0], n)
        if r is not None:
            I.store(s, o, r.with_('buf', t).with_('pos', 0), n)
        return [(s, VOID)]
    if r is None:
        return [(s, top_str())]
    return [(s, r.f['buf'])]


@meth(tuple(SSCLS) + ('std::basic_ios', 'std::ios_base', 'std::basic_ifstream', 'std::basic_istream'), 'clear', 'setstate', 'imbue', 'precision', 'width', 'exceptions', 'setf', 'unsetf', 'fill')
def m_ios(I, s, n, o, vs):
    return [(s, VOID if n['t'] is None or n['t'].k == 'void' else I.unknown(n['t'], 'ios'))]


def ctor_ss(I, s, n, vs):
    buf = EMPTY
    if vs and n['pt'] and nref(n['pt'][0]).k == 'rec' and nref(n['pt'][0]).q in STRCLS:
        buf = S_at(I, s, vs[0], n)
    return [(s, Rec(n['cls'], {'buf': buf, 'pos': 0}))]


for _c in SSCLS:
    CTORS[_c] = ctor_ss


@fun('std::getline')
def f_getline(I, s, n, vs):
    """reads the next line of a string stream"""
    r = stream_obj(I, s, vs[0])
    if r is None:
        I.store(s, vs[1], top_str(frozenset(('file',))), n)
        return [(s, vs[0])]
    t = r.f['buf']; pos = r.f.get('pos', 0)
    d = lit('\n') if len(vs) < 3 else I.chr_str(s, vs[2])
    out = []
    for s2, end in I.compare(s, '<', pos, slen(t), n):
        if not end:
            I.store(s2, vs[0], r.with_('fail', True), n)
            out.append((s2, vs[0])); continue
        for s3, i in find(I, s2, t, d, pos, n):
            if isinstance(i, int) and i == NPOS:
                I.store(s3, vs[1], I.norm(s3, I.cut(s3, t, pos)[1]), n)
                I.store(s3, vs[0], r.with_('pos', slen(t)), n)
            else:
                I.store(s3, vs[1], I.norm(s3, I.cut3(s3, t, pos, i)[1]), n)
                I.store(s3, vs[0], r.with_('pos', add(i, 1)), n)
            out.append((s3, vs[0]))
    return out


@meth(('std::basic_ios', 'std::basic_istream', 'std::basic_ifstream', 'std::basic_stringstream', 'std::basic_istringstream'), 'operator bool', 'good', 'is_open', 'operator!', 'fail', 'eof', 'bad')
def m_iosbool(I, s, n, o, vs):
    v = I.peek(s, o) if isinstance(o, Ptr) else None
    nm = n['q'].split('::')[-1]
    inv = nm in ('operator!', 'fail', 'bad')
    if isinstance(v, Rec) and 'buf' in v.f and nm not in ('eof',):
        return [(s, bool(v.f.get('fail')) if inv else not v.f.get('fail'))]
    if isinstance(v, Rec) and 'ok' in v.f and nm not in ('eof',):
        return [(s2, (not b) if inv else b) for s2, b in I.truth(s, v.f['ok'], n)]
    return [(s, True), (s.copy(), False)]


def ctor_file(I, s, n, vs):
    f = {'ok': fresh('open', 0, 1), 'size': 0}
    if vs and n['pt']:
        try:
            f['name'] = T(I, s, vs[0], n['args'][0], n)
        except Infeasible:
            raise
        f['size'] = sym(('fsize', f['name']), 0, MAXLEN)
    return [(s, Rec(n['cls'], f))]


for _c in ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream'):
    CTORS[_c] = ctor_file


@meth(('std::basic_istream', 'std::basic_ifstream'), 'seekg', 'ignore', 'unget', 'sync')
def m_seek(I, s, n, o, vs):
    return [(s, o)]


@meth(('std::basic_istream', 'std::basic_ifstream'), 'tellg', 'gcount')
def m_tellg(I, s, n, o, vs):
    v = I.peek(s, o)
    return [(s, v.f.get('size', fresh('tellg', 0, MAXLEN)) if isinstance(v, Rec) else fresh('tellg', 0, MAXLEN))]


@meth('std::fpos', 'operator long', 'operator std::streamoff', 'operator long long', 'operator streamoff')
def m_fpos(I, s, n, o, vs):
    v = I.peek(s, o) if isinstance(o, Ptr) else o
    return [(s, v if is_num(v) else fresh('fpos', 0, MAXLEN))]


def ctor_fpos(I, s, n, vs):
    v = vs[0] if vs else 0
    if isinstance(v, Ptr):
        v = I.load(s, v, n)
    return [(s, v)]


CTORS['std::fpos'] = ctor_fpos


@meth(('std::basic_istream', 'std::basic_ifstream'), 'read')
def m_read(I, s, n, o, vs):
    v = I.peek(s, o)
    k = vs[1]
    if not is_num(k):
        s.imprecise('read size')
        return [(s, o)]
    name = v.f.get('name') if isinstance(v, Rec) else None
    src = ('f', 'file', name if name is not None else EMPTY)
    if s.const(k) != 0:
        t = Str((Seg(src, 0, k),))
        # zero bytes read is possible only for an empty file
        overwrite(I, s, vs[0], t, n)
    return [(s, o)]


# ---------------------------------------------------------------- vectors and algorithms
VEC = ('std::vector', 'std::initializer_list', 'std::array', 'std::deque', 'std::list')


def A_at(I, s, p, n):
    if isinstance(p, Arr):
        return p
    v = I.load(s, p, n) if isinstance(p, Ptr) else p
    if isinstance(v, Arr):
        return v
    s.imprecise('container unknown')
    return Arr(fresh('n?', 0, MAXLEN, True), kind='vec') if not isinstance(v, Rec) else Arr(0, kind='vec')


def vp(o):
    return Ptr(o.obj, o.path + ((('e', o.idx),) if o.arr else ()))


@meth(VEC, 'begin', 'cbegin', 'data')
def m_vbegin(I, s, n, o, vs):
    a = A_at(I, s, o, n)
    if n['q'].endswith('::data') and s.const(a.n) == 0:
        return [(s, Ptr(vp(o).obj, vp(o).path, True, 0)), ] if not I.g or not getattr(I.g, 'null_data', False) else [(s, NULL)]
    p = vp(o)
    return [(s, Ptr(p.obj, p.path, True, 0))]


@meth(VEC, 'end', 'cend')
def m_vend(I, s, n, o, vs):
    a = A_at(I, s, o, n); p = vp(o)
    return [(s, Ptr(p.obj, p.path, True, a.n))]


@meth(VEC, 'rbegin', 'crbegin')
def m_vrb(I, s, n, o, vs):
    a = A_at(I, s, o, n); p = vp(o)
    return [(s, Rec('$rit', {'p': Ptr(p.obj, p.path, True, a.n)}))]


@meth(VEC, 'rend', 'crend')
def m_vre(I, s, n, o, vs):
    p = vp(o)
    return [(s, Rec('$rit', {'p': Ptr(p.obj, p.path, True, 0)}))]


@meth(VEC, 'size')
def m_vsize(I, s, n, o, vs):
    return [(s, A_at(I, s, o, n).n)]


@meth(VEC, 'empty')
def m_vempty(I, s, n, o, vs):
    return I.compare(s, '==', A_at(I, s, o, n).n, 0, n)


@meth(VEC, 'operator[]', 'at')
def m_vidx(I, s, n, o, vs):
    a = A_at(I, s, o, n); p = vp(o)
    i = vs[0]
    if not is_num(i):
        s.imprecise('unknown index')
        return [(s, Top('index'))]
    q = Ptr(p.obj, p.path, True, i)
    if n['q'].endswith('::at'):
        out = []
        for s2, lt in I.compare(s, '<', i, a.n, n):
            if lt:
                out.append((s2, q))
            else:
                out.extend(throw(s2, 'std::out_of_range', n))
        return out
    I.chk_idx(s, a.n, i, n, 'oob-read')
    return [(s, q)]


@meth(VEC, 'front')
def m_vfront(I, s, n, o, vs):
    I.chk_idx(s, A_at(I, s, o, n).n, 0, n, 'oob-read')
    p = vp(o)
    return [(s, Ptr(p.obj, p.path, True, 0))]


@meth(VEC, 'back')
def m_vback(I, s, n, o, vs):
    a = A_at(I, s, o, n)
    I.chk_idx(s, a.n, sub(a.n, 1), n, 'oob-read')
    p = vp(o)
    return [(s, Ptr(p.obj, p.path, True, sub(a.n, 1)))]


@meth(VEC, 'reserve', 'shrink_to_fit')
def m_vres(I, s, n, o, vs):
    return [(s, VOID)]


def elem_ctor(I, s, dst, et, src, move, n):
    """copy/move the element at src (a location or a value) into dst -> states"""
    if et is not None and et.k == 'rec' and et.repo:
        I.store(s, dst, I.undef(et), n)
        m = (I.P.special(et.q, 'movector') if move else None) or I.P.special(et.q, 'copyctor')
        if m is not None:
            return I.call_ctor(s, m['key'], et.q, dst, [src], n)
    v = src
    if isinstance(src, Ptr) and not (et is not None and et.is_ptr() and False):
        v = I.load(s, src, n)
    I.store(s, dst, v, n)
    return [s]


def vpush(I, s, o, et, src, move, n):
    p = vp(o)
    a = A_at(I, s, p, n)
    i = a.n
    if not is_num(i):
        return [s]
    I.store(s, p, Arr(add(i, 1), a.lo, a.hi, a.tmpl, a.ex + ((i, UNDEF if not (et is not None and et.k == 'rec') else I.undef(et)),), a.kind), n)
    return elem_ctor(I, s, Ptr(p.obj, p.path + (('e', i),)), et, src, move, n)


def etype(I, n, o=None):
    """element type of the vector a member call is made on"""
    t = nref(n['obj']['t']) if n.get('obj') is not None else None
    if t is not None and t.k == 'ptr':
        t = t.to
    if t is not None and t.ta and not isinstance(t.ta[0], (int, str)):
        return t.ta[0]
    return None


@meth(VEC, 'push_back')
def m_vpush(I, s, n, o, vs):
    et = etype(I, n)
    rv = bool(n['pt'] and n['pt'][0].rv)
    return [(x, VOID if x.exc is None else None) for x in vpush(I, s, o, et, vs[0], rv, n)]


@meth(VEC, 'emplace_back')
def m_vemp(I, s, n, o, vs):
    et = etype(I, n)
    p = vp(o)
    a = A_at(I, s, p, n)
    i = a.n
    dst = Ptr(p.obj, p.path + (('e', i),))
    if et is not None and et.k == 'rec' and et.repo:
        cand = [m for m in I.P.records[et.q]['methods'] if m['kind'] == 'ctor' and m['np'] == len(vs)]
        if len(vs) == 1 and nref(n['args'][0]['t']).q == et.q:
            outs = vpush(I, s, o, et, vs[0], not nref(n['args'][0]['t']).const, n)
            return [(x, dst if x.exc is None else None) for x in outs]
        return None
    if et is not None and et.q in STRCLS:
        if len(vs) == 1:
            t = T(I, s, vs[0], n['args'][0], n)
            outs = vpush(I, s, o, et, t, False, n)
            return [(x, dst) for x in outs]
        return None
    if et is not None and et.q == 'std::pair' and len(vs) == 2:
        v = Rec('std::pair', {'std::pair::first': anyval(I, s, vs[0], n['args'][0], n), 'std::pair::second': anyval(I, s, vs[1], n['args'][1], n)})
        return [(x, dst) for x in vpush(I, s, o, et, v, False, n)]
    if len(vs) == 1:
        return [(x, dst) for x in vpush(I, s, o, et, anyval(I, s, vs[0], n['args'][0], n), False, n)]
    return None


def anyval(I, s, v, node, n):
    if isinstance(v, Ptr) and (node.get('g') or nref(node['t']).k == 'rec'):
        return I.load(s, v, n)
    return v


@meth(VEC, 'pop_back')
def m_vpop(I, s, n, o, vs):
    p = vp(o)
    a = A_at(I, s, p, n)
    I.chk_idx(s, a.n, sub(a.n, 1), n, 'oob-write')
    k = sub(a.n, 1)
    et = etype(I, n)
    outs = [s]
    if et is not None and I.needs_dtor(et):
        outs = I.destroy(s, Ptr(p.obj, p.path + (('e', k),)), et, n)
    for x in outs:
        b = A_at(I, x, p, n)
        I.store(x, p, Arr(k, b.lo, b.hi, b.tmpl, tuple(e for e in b.ex if e[0] != k), b.kind), n)
    return [(x, VOID) for x in outs]


@meth(VEC, 'clear')
def m_vclear(I, s, n, o, vs):
    p = vp(o)
    et = etype(I, n)
    a = A_at(I, s, p, n)
    outs = [s]
    if et is not None and I.needs_dtor(et):
        outs = I.destroy_elems(s, p, et, a, n)
    for x in outs:
        I.store(x, p, Arr(0, kind='vec'), n)
    return [(x, VOID) for x in outs]


@meth(VEC, 'resize', 'assign', 'insert', 'erase')
def m_vres2(I, s, n, o, vs):
    p = vp(o)
    nm = n['q'].split('::')[-1]
    et = etype(I, n)
    if nm == 'resize' and et is not None and et.k == 'int' and is_num(vs[0]):
        I.store(s, p, Arr(vs[0], 0, vs[0], 0, (), 'vec'), n)
        return [(s, VOID)]
    if nm == 'assign' and et is not None and not I.needs_dtor(et) and len(vs) == 2 and isinstance(vs[0], Ptr):
        x = itv(I, s, vs[0], n['args'][0], n); y = itv(I, s, vs[1], n['args'][1], n)
        I.store(s, p, slice_arr(I, s, x, y, n), n)
        return [(s, VOID)]
    return None


@meth(VEC, 'operator=', 'swap')
def m_vassign(I, s, n, o, vs):
    p = vp(o)
    et = etype(I, n)
    if n['q'].endswith('swap'):
        a = A_at(I, s, p, n); b = A_at(I, s, vs[0], n)
        I.store(s, p, b, n); I.store(s, vs[0], a, n)
        return [(s, VOID)]
    src = vs[0]
    if isinstance(src, Ptr) and vp(src) == p:
        return [(s, o)]
    cur = [s]
    if et is not None and I.needs_dtor(et):
        cur = I.destroy_elems(s, p, et, A_at(I, s, p, n), n)
    out = []
    mv = bool(n['pt'] and n['pt'][0].rv)
    for x in cur:
        if mv or not (et is not None and et.k == 'rec' and et.repo):
            a = A_at(I, x, src, n)
            I.store(x, p, Arr(a.n, a.lo, a.hi, a.tmpl, a.ex, 'vec'), n)
            if mv:
                I.store(x, src, Arr(0, kind='vec'), n)
            out.append((x, o))
        else:
            I.store(x, p, Arr(0, kind='vec'), n)
            for y in copy_elems(I, x, p, et, vp(src), n):
                out.append((y, o if y.exc is None else None))
    return out


def loop_n(I, s, cnt, body, n, tag):
    """for i in [0,cnt): body(state, i) -> states;  returns states"""
    iid = ('x', s.depth, ('#ln', tag, I.nid(n)))
    s.h[iid] = Obj('var', 0)
    def cond(x):
        return I.compare(x, '<', x.h[iid].val, cnt(x), n)
    def fb(x):
        r = []
        for y in body(x, x.h[iid].val):
            if isinstance(y, tuple):
                r.append((y[0], y[1]))
            else:
                r.append((X if y.exc is not None else N, y))
        return r
    def inc(x):
        x.h[iid] = Obj('var', add(x.h[iid].val, 1))
        return [x]
    out = []
    for kd, x in I.run_loop(s, cond, fb, inc, n):
        x.h.pop(iid, None)
        out.append((kd, x))
    return out


def copy_elems(I, s, p, et, srcp, n):
    """copy construct every element of the container at srcp to the end of the one at p"""
    def cnt(x):
        return A_at(I, x, srcp, n).n
    def body(x, i):
        return vpush(I, x, p, et, Ptr(srcp.obj, srcp.path, True, i), False, n)
    return [x for kd, x in loop_n(I, s, cnt, body, n, 'cp')]


def slice_arr(I, s, x, y, n):
    """elements [x,y) of scalar arrays as a vector value"""
    if x is NULL and (y is NULL or is_num(y)):
        return Arr(0, kind='vec')
    if not isinstance(x, Ptr) or not isinstance(y, Ptr) or x.obj != y.obj or x.path != y.path:
        s.imprecise('range of unknown array')
        return Arr(fresh('n?', 0, MAXLEN, True), 0, 0, None, (), 'vec')
    lo = x.idx if x.arr else 0
    hi = y.idx if y.arr else 0
    cnt = sub(hi, lo)
    if s.const(cnt) == 0:
        return Arr(0, kind='vec')
    ob = I.base(s, x, n, 'read')
    if ob is None:
        raise Infeasible('range')
    a = I.getpath(s, ob.val, x.path, n)
    if isinstance(a, Arr):
        I.ob('bounds')
        if not s.ge0(sub(a.n, hi)):
            t = s.copy()
            if t.assume_ge0(sub(hi, add(a.n, 1))):
                I.alarm(t, 'oob-read', 'range of %s elements of an array of %s' % (show_num(cnt), show_num(a.n)), n, (hi, a.n))
        if isinstance(lo, int) and lo == 0:
            return Arr(cnt, a.lo, a.hi, a.tmpl, a.ex, 'vec')
        S = Subst({IDXSYM: add(IDX, lo)})
        return Arr(cnt, sub(a.lo, lo), sub(a.hi, lo), None if a.tmpl is None else S.any(a.tmpl), tuple((sub(k, lo), v) for k, v in a.ex), 'vec')
    s.imprecise('range of unknown array')
    return Arr(cnt, 0, cnt, Top('element'), (), 'vec')


def ctor_vec(I, s, n, vs):
    pt = [nref(p) for p in n['pt']]
    a = n['args']
    t = n['t']
    et = t.ta[0] if t is not None and t.ta and not isinstance(t.ta[0], (int, str)) else None
    while pt and pt[-1].k == 'rec' and pt[-1].q == 'std::allocator':
        pt = pt[:-1]; vs = vs[:-1]; a = a[:-1]
    if not pt:
        if t is not None and t.q == 'std::array':
            return [(s, default_value(t))]
        return [(s, Arr(0, kind='vec'))]
    repo = et is not None and et.k == 'rec' and et.repo
    p0 = pt[0]
    if p0.k == 'rec' and p0.q in VECCLS and len(pt) == 1:
        src = vs[0]
        if isinstance(src, Arr):
            return [(s, Arr(src.n, src.lo, src.hi, src.tmpl, src.ex, 'vec'))]
        if n.get('move') or (n['pt'][0].rv):
            v = A_at(I, s, src, n)
            I.store(s, src, Arr(0, kind='vec'), n)
            return [(s, Arr(v.n, v.lo, v.hi, v.tmpl, v.ex, 'vec'))]
        if not repo:
            v = A_at(I, s, src, n)
            return [(s, Arr(v.n, v.lo, v.hi, v.tmpl, v.ex, 'vec'))]
        if n['cls'] == 'std::initializer_list':
            v = A_at(I, s, src, n)
            if s.const(v.n) == 0:
                return [(s, Arr(0, kind='vec'))]
        # copy-construct the elements in a scratch object, then move it
        oid = ('x', s.depth, ('#vc', I.nid(n)))
        s.h[oid] = Obj('tmp', Arr(0, kind='vec'))
        out = []
        for x in copy_elems(I, s, Ptr(oid), et, vp(src), n):
            if x.exc is None:
                o = x.h.pop(oid)
                out.append((x, o.val))
            else:
                out.append((x, None))
        return out
    if len(pt) == 2 and p0.k in ('ptr', 'rec'):
        x = itv(I, s, vs[0], a[0], n); y = itv(I, s, vs[1], a[1], n)
        if not repo:
            return [(s, slice_arr(I, s, x, y, n))]
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            oid = ('x', s.depth, ('#vc', I.nid(n)))
            s.h[oid] = Obj('tmp', Arr(0, kind='vec'))
            c = sub(y.idx, x.idx)
            def body(z, i):
                return vpush(I, z, Ptr(oid), et, Ptr(x.obj, x.path, True, add(x.idx, i)), False, n)
            out = []
            for kd, z in loop_n(I, s, lambda z: c, body, n, 'rg'):
                if z.exc is None:
                    out.append((z, z.h.pop(oid).val))
                else:
                    out.append((z, None))
            return out
        return None
    if p0.k == 'int':
        k = vs[0]
        if et is not None and et.ch:
            c = anyval(I, s, vs[1], a[1], n) if len(vs) > 1 else 0
            return [(s, CBuf(k, EMPTY, 'Z') if s.const(c) == 0 else CBuf(k, top_str(), False))]
        if len(vs) > 1:
            return [(s, Arr(k, 0, k, anyval(I, s, vs[1], a[1], n), (), 'vec'))]
        return [(s, Arr(k, 0, k, I.zero(et) if et is not None else 0, (), 'vec'))]
    return None


def ctor_vec_safe(I, s, n, vs):
    r = ctor_vec(I, s, n, vs)
    if r is None:
        s.imprecise('constructor of ' + n['cls'])
        I.undec(s, 'no model for constructor of ' + n['cls'], n)
        return [(s, Arr(fresh('n?', 0, MAXLEN, True), kind='vec'))]
    return r


for _c in VECCLS:
    CTORS[_c] = ctor_vec_safe

# vector<char> held as a character buffer
_vecdata = METHODS[('std::vector', 'data')]


def ctor_pair(I, s, n, vs):
    if n.get('copy') or n.get('move'):
        return [(s, I.load(s, vs[0], n))]
    if len(vs) == 2:
        return [(s, Rec('std::pair', {'std::pair::first': anyval(I, s, vs[0], n['args'][0], n), 'std::pair::second': anyval(I, s, vs[1], n['args'][1], n)}))]
    return [(s, Rec('std::pair', {}))]


CTORS['std::pair'] = ctor_pair


@fun('std::make_pair')
def f_make_pair(I, s, n, vs):
    return [(s, Rec('std::pair', {'std::pair::first': anyval(I, s, vs[0], n['args'][0], n), 'std::pair::second': anyval(I, s, vs[1], n['args'][1], n)}))]


def ctor_exc(I, s, n, vs):
    return [(s, Rec(n['cls'], {}))]


for _c in ('std::invalid_argument', 'std::runtime_error', 'std::out_of_range', 'std::logic_error', 'std::length_error', 'std::domain_error',
           'std::exception', 'std::bad_alloc', 'std::allocator', 'timeval', 'std::system_error', 'std::range_error'):
    CTORS[_c] = ctor_exc


@meth(('std::exception', 'std::invalid_argument', 'std::logic_error', 'std::runtime_error', 'std::out_of_range'), 'what')
def m_what(I, s, n, o, vs):
    return [(s, Ptr(('L', Str((new_unk(frozenset(('what',))),))), (), True, 0))]


ITER = ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::_Bit_iterator')


def ctor_iter(I, s, n, vs):
    if not vs:
        return [(s, NULL)]
    v = itv(I, s, vs[0], n['args'][0], n)
    if isinstance(v, Ptr) and n['cls'] == 'std::reverse_iterator':
        return [(s, Rec('$rit', {'p': v}))]
    return [(s, v)]


for _c in ITER:
    CTORS[_c] = ctor_iter


def it_get(I, s, o):
    v = I.peek(s, o) if isinstance(o, Ptr) else o
    if isinstance(v, Ptr) or isinstance(v, Rec) and v.cls == '$rit':
        return v, True
    return o, False


@meth(ITER, 'operator*', 'operator->')
def it_deref(I, s, n, o, vs):
    v, _ = it_get(I, s, o)
    if isinstance(v, Rec):
        p = v.f['p']
        return [(s, Ptr(p.obj, p.path, True, sub(p.idx, 1)))]
    return [(s, v)]


@meth(ITER, 'operator++', 'operator--', 'operator+=', 'operator-=', 'operator+', 'operator-')
def it_step(I, s, n, o, vs):
    v, lv = it_get(I, s, o)
    op = n['q'].split('operator')[-1]
    rev = isinstance(v, Rec)
    p = v.f['p'] if rev else v
    d = 1 if op in ('++', '--') else vs[0]
    if op in ('-',) and isinstance(vs[0], Ptr):
        w, _ = it_get(I, s, vs[0])
        if isinstance(w, Ptr) and w.obj == p.obj:
            return [(s, sub(p.idx, w.idx))]
        return None
    if not is_num(d):
        return None
    if op in ('--', '-=', '-'):
        d = neg(d)
    if rev:
        d = neg(d)
    q = I.ptr_add(s, p, d, n)
    nv = Rec('$rit', {'p': q}) if rev else q
    if op in ('+', '-'):
        return [(s, nv)]
    I.store(s, o, nv, n)
    if op in ('++', '--') and vs:
        return [(s, v)]
    return [(s, o)]


@meth(ITER, 'base')
def it_base(I, s, n, o, vs):
    v, _ = it_get(I, s, o)
    return [(s, v.f['p'] if isinstance(v, Rec) else v)]


@meth(ITER, 'operator=')
def it_assign(I, s, n, o, vs):
    v, _ = it_get(I, s, vs[0])
    I.store(s, o, v, n)
    return [(s, o)]


@meth(ITER, 'operator[]')
def it_idx(I, s, n, o, vs):
    v, _ = it_get(I, s, o)
    return [(s, Ptr(v.obj, v.path, True, add(v.idx, vs[0])))] if isinstance(v, Ptr) else None


@fun('std::begin', 'std::cbegin')
def f_begin(I, s, n, vs):
    p = vp(vs[0])
    return [(s, Ptr(p.obj, p.path, True, 0))]


@fun('std::end', 'std::cend')
def f_end(I, s, n, vs):
    p = vp(vs[0])
    v = I.load(s, p, n)
    if isinstance(v, Arr):
        return [(s, Ptr(p.obj, p.path, True, v.n))]
    if isinstance(v, Str):
        return [(s, Ptr(p.obj, p.path, True, slen(v)))]
    if isinstance(v, CBuf):
        return [(s, Ptr(p.obj, p.path, True, v.cap))]
    return None


@fun('std::size', 'std::ssize')
def f_size(I, s, n, vs):
    v = I.load(s, vs[0], n)
    if isinstance(v, Arr):
        return [(s, v.n)]
    if isinstance(v, Str):
        return [(s, slen(v))]
    if isinstance(v, CBuf):
        return [(s, v.cap)]
    return None


@fun('std::distance')
def f_dist(I, s, n, vs):
    a = itv(I, s, vs[0], n['args'][0], n); b = itv(I, s, vs[1], n['args'][1], n)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return [(s, sub(b.idx, a.idx))]
    return None


@fun('std::next', 'std::prev')
def f_next(I, s, n, vs):
    a = itv(I, s, vs[0], n['args'][0], n)
    d = vs[1] if len(vs) > 1 else 1
    if isinstance(a, Ptr) and is_num(d):
        return [(s, I.ptr_add(s, a, d if n['q'].endswith('next') else neg(d), n))]
    return None


def rng(I, s, n, vs):
    a = itv(I, s, vs[0], n['args'][0], n); b = itv(I, s, vs[1], n['args'][1], n)
    return a, b


def text_range(I, s, a, b, n):
    """Str covered by [a,b) if a,b point into one text"""
    rev = False
    if isinstance(a, Rec) and a.cls == '$rit' and isinstance(b, Rec):
        a, b = b.f['p'], a.f['p']
        rev = True
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.path == b.path:
        v = I.peek(s, Ptr(a.obj, a.path))
        if isinstance(v, Str) or isinstance(v, CBuf) and v.txt is not None:
            t = v if isinstance(v, Str) else v.txt
            return I.cut3(s, t, a.idx, b.idx)[1], a, b, rev
    return None


@fun('std::find_if', 'std::find_if_not', 'std::find')
def f_find_if(I, s, n, vs):
    a, b = rng(I, s, n, vs)
    nm = n['q'].split('::')[-1]
    tr = text_range(I, s, a, b, n)
    if tr is not None:
        t, lo, hi, rev = tr
        if nm == 'find':
            c = lval(I, s, vs[2], n['args'][2], n)
            c = s.const(c) if is_num(c) else None
            cs = frozenset((c & 255,)) if c is not None else None
        else:
            f = vs[2]
            cs = pred_set(I, s, f, n)
        if cs is None:
            k = fresh('at', 0, MAXLEN)
            s.assume_ge0(sub(k, lo.idx)); s.assume_ge0(sub(hi.idx, k))
            p = Ptr(lo.obj, lo.path, True, k)
            return [(s, Rec('$rit', {'p': p}) if rev else p)]
        if nm == 'find_if_not':
            cs = ALLCH - cs
        out = []
        for s2, i in find_set(I, s, t, cs, NPOS if rev else 0, n, False, rev):
            if isinstance(i, int) and i == NPOS:
                p = Ptr(lo.obj, lo.path, True, lo.idx) if rev else Ptr(lo.obj, lo.path, True, hi.idx)
            else:
                p = Ptr(lo.obj, lo.path, True, add(lo.idx, add(i, 1) if rev else i))
            out.append((s2, Rec('$rit', {'p': p}) if rev else p))
        return out
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.path == b.path:
        return search_elems(I, s, a, b, n, vs, nm)
    return None


def search_elems(I, s, a, b, n, vs, nm):
    """find over the elements of a container: run the predicate on them in order"""
    iid = ('x', s.depth, ('#fi', I.nid(n)))
    rid = ('x', s.depth, ('#fr', I.nid(n)))
    s.h[iid] = Obj('var', a.idx)
    s.h[rid] = Obj('var', b)
    def cond(x):
        return I.compare(x, '<', x.h[iid].val, b.idx, n)
    def body(x):
        p = Ptr(a.obj, a.path, True, x.h[iid].val)
        r = []
        if nm in ('find', 'count'):
            e = I.load(x, p, n)
            w = lval(I, x, vs[2], n['args'][2], n)
            if isinstance(e, Str):
                w = T(I, x, vs[2], n['args'][2], n)
                res = txt_eq(I, x, e, w, n)
            else:
                res = I.compare(x, '==', e, w, n)
        else:
            res = [(y, v if y.exc is not None else v) for y, v in call_fn(I, x, vs[2], [elem_arg(I, x, vs[2], p, n)], dict(n, t=None))]
        for y, v in res:
            if y.exc is not None:
                r.append((X, y)); continue
            for z, tv in I.truth(y, v, n):
                if tv != (nm == 'find_if_not'):
                    z.h[rid] = Obj('var', Ptr(a.obj, a.path, True, z.h[iid].val))
                    r.append((B, z))
                else:
                    r.append((N, z))
        return r
    def inc(x):
        x.h[iid] = Obj('var', add(x.h[iid].val, 1))
        return [x]
    out = []
    for kd, x in I.run_loop(s, cond, body, inc, n):
        x.h.pop(iid, None)
        r = x.h.pop(rid).val
        out.append((x, r if x.exc is None else None))
    return out


@fun('std::any_of', 'std::all_of', 'std::none_of')
def f_any(I, s, n, vs):
    a, b = rng(I, s, n, vs)
    nm = n['q'].split('::')[-1]
    tr = text_range(I, s, a, b, n)
    out = []
    if tr is not None:
        t, lo, hi, rev = tr
        cs = pred_set(I, s, vs[2], n)
        if cs is None:
            return [(s, True), (s.copy(), False)]
        if nm == 'all_of':
            cs = ALLCH - cs
        for s2, i in find_set(I, s, t, cs, 0, n):
            f = not (isinstance(i, int) and i == NPOS)
            out.append((s2, f if nm == 'any_of' else not f))
        return out
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.path == b.path:
        for s2, r in search_elems(I, s, a, b, n, vs, 'find_if_not' if nm == 'all_of' else 'find_if'):
            if s2.exc is not None:
                out.append((s2, None)); continue
            for s3, e in I.compare(s2, '==', r, b, n):
                out.append((s3, (not e) if nm == 'any_of' else e))
        return out
    return None


@fun('std::count', 'std::count_if')
def f_count(I, s, n, vs):
    a, b = rng(I, s, n, vs)
    f = fresh('count', 0, MAXLEN)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        s.assume_ge0(sub(sub(b.idx, a.idx), f))
    return [(s, f)]


def elem_arg(I, s, f, p, n):
    """argument for an element callback: by value for scalars, location for records"""
    v = I.peek(s, f) if isinstance(f, Ptr) else f
    key = None
    if isinstance(v, Rec) and v.cls == '$lambda':
        for o in v.f['$ops'].key:
            if o in I.P.funcs:
                key = o
    elif isinstance(v, Fn) and v.key in I.P.funcs:
        key = v.key
    if key is None:
        return p
    ps = I.P.funcs[key]['params']
    if ps and ps[0]['t'].k not in ('ref', 'rec'):
        return I.load(s, p, n)
    return p


@fun('std::for_each')
def f_for_each(I, s, n, vs):
    a, b = rng(I, s, n, vs)
    f = vs[2]
    if a is NULL and (b is NULL or isinstance(b, Top)):
        return [(s, Rec('$fn', {}))]
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.path == b.path):
        return None
    lo = a.idx if a.arr else 0
    cnt = sub(b.idx if b.arr else 0, lo)
    # keep the closure alive for the loop
    if isinstance(f, Ptr) and f.obj[0] == 't':
        xid = ('x', s.depth, ('#fe', I.nid(n)))
        s.h[xid] = s.h.pop(f.obj)
        s.cl = tuple((xid if q == f.obj else q, y, z) for q, y, z in s.cl)
        f = Ptr(xid, f.path)
    m = dict(n); m['t'] = None
    def body(x, i):
        p = Ptr(a.obj, a.path, True, add(lo, i))
        return [(X if y.exc is not None else N, y) for y, v in call_fn(I, x, f, [elem_arg(I, x, f, p, n)], m)]
    out = []
    for kd, x in loop_n(I, s, lambda x: cnt, body, n, 'fe'):
        out.append((x, Rec('$fn', {}) if x.exc is None else None))
    return out


@fun('std::back_inserter')
def f_bi(I, s, n, vs):
    return [(s, Rec('$bi', {'p': vs[0]}))]


def _biet(I, s, p, n):
    for a in n['args']:
        t = nref(a['t'])
        if t is not None and t.k == 'rec' and t.q == 'std::back_insert_iterator' and t.ta:
            v = t.ta[0]
            if v is not None and v.ta:
                return v.ta[0]
    return None


CTORS['std::back_insert_iterator'] = lambda I, s, n, vs: [(s, I.load(s, vs[0], n))]


@fun('std::transform')
def f_transform(I, s, n, vs):
    if len(vs) != 4:
        return None
    a, b = rng(I, s, n, vs)
    d = vs[2]
    f = vs[3]
    tr = text_range(I, s, a, b, n)
    dv = I.peek(s, d) if isinstance(d, Ptr) else None
    if tr is not None and not (isinstance(dv, Rec) and dv.cls == '$bi' and False):
        t, lo, hi, rev = tr
        tab = char_table(I, s, f, n)
        if tab is None or rev:
            r = Str((new_unk(str_tags(t), slen(t)),))
        else:
            r = map_text(t, [x & 255 for x in tab])
        if isinstance(dv, Rec) and dv.cls == '$bi':
            o = dv.f['p']
            setS(I, s, o, concat(S_at(I, s, o, n), r), n)
            return [(s, dv)]
        di = itv(I, s, d, n['args'][2], n)
        if isinstance(di, Ptr):
            tgt = I.peek(s, Ptr(di.obj, di.path))
            if isinstance(tgt, Str) and s.eq(slen(tgt), slen(r)) and s.eq(di.idx, 0):
                I.store(s, Ptr(di.obj, di.path), r, n)
            else:
                overwrite(I, s, di, r, n)
            return [(s, Ptr(di.obj, di.path, True, add(di.idx, slen(r))))]
        return None
    if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(dv, Rec) and dv.cls == '$bi' and a.obj == b.obj and a.path == b.path:
        o = dv.f['p']
        et = _biet(I, s, o, n)
        cnt = sub(b.idx, a.idx)
        if isinstance(f, Ptr) and f.obj[0] == 't':
            xid = ('x', s.depth, ('#tf', I.nid(n)))
            s.h[xid] = s.h.pop(f.obj)
            s.cl = tuple((xid if q == f.obj else q, y, z) for q, y, z in s.cl)
            f = Ptr(xid, f.path)
        m = dict(n); m['t'] = et
        def body(x, i):
            p = Ptr(a.obj, a.path, True, add(a.idx, i))
            r = []
            if et is not None and et.k == 'rec':
                tid = ('x', x.depth, ('#tv', I.nid(n)))
                x.h[tid] = Obj('tmp', I.undef(et))
                for y, v in call_fn(I, x, f, [elem_arg(I, x, f, p, n)], m, Ptr(tid)):
                    if y.exc is not None:
                        r.append((X, y)); continue
                    if isinstance(v, (Str, Rec, Arr)):
                        I.store(y, Ptr(tid), v, n)
                    for z in vpush(I, y, o, et, Ptr(tid), True, n):
                        for w in (I.destroy(z, Ptr(tid), et, n) if z.exc is None else [z]):
                            w.h.pop(tid, None)
                            r.append((X if w.exc is not None else N, w))
                return r
            for y, v in call_fn(I, x, f, [elem_arg(I, x, f, p, n)], m):
                if y.exc is not None:
                    r.append((X, y)); continue
                for z in vpush(I, y, o, et, v, True, n):
                    r.append((N, z))
            return r
        out = []
        for kd, x in loop_n(I, s, lambda x: cnt, body, n, 'tf'):
            out.append((x, dv if x.exc is None else None))
        return out
    return None


LOWER = [ord(chr(c).lower()) if c < 128 else c for c in range(256)]
UPPER = [ord(chr(c).upper()) if c < 128 else c for c in range(256)]


def map_text(t, tab):
    if tab == list(range(256)):
        return t
    nm = 'toLower' if tab == LOWER else 'toUpper' if tab == UPPER else 'map'
    out = EMPTY
    for p in t.p:
        if isinstance(p, bytes):
            out = concat(out, lit(bytes(tab[c] for c in p)))
        elif isinstance(p, Seg):
            src = ('f', nm, full(p.src) if True else None) if nm != 'map' else ('f', 'map', full(p.src), tuple(tab))
            out = concat(out, Str((Seg(src, p.off, p.n),)))
        else:
            src = ('f', nm, Str((p,))) if nm != 'map' else ('f', 'map', Str((p,)), tuple(tab))
            out = concat(out, Str((Seg(src, 0, plen(p)),)))
    return out


@fun('std::copy', 'std::copy_n', 'std::move_backward', 'std::copy_backward')
def f_copy(I, s, n, vs):
    if n['q'] == 'std::copy_n':
        a = itv(I, s, vs[0], n['args'][0], n)
        b = I.ptr_add(s, a, vs[1], n) if isinstance(a, Ptr) else a
    else:
        a, b = rng(I, s, n, vs)
    d = itv(I, s, vs[2], n['args'][2], n)
    dv = I.peek(s, d) if isinstance(d, Ptr) else d
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        v = I.peek(s, Ptr(a.obj, a.path))
        if isinstance(v, (Str, CBuf)):
            t = buf_slice(I, s, a, sub(b.idx, a.idx), n)
            if isinstance(dv, Rec) and dv.cls == '$bi':
                o = dv.f['p']
                setS(I, s, o, concat(S_at(I, s, o, n), t), n)
                return [(s, dv)]
            if isinstance(d, Ptr):
                overwrite(I, s, d, t, n)
                return [(s, I.ptr_add(s, d, sub(b.idx, a.idx), n))]
    return None


@fun('std::fill', 'std::fill_n')
def f_fill(I, s, n, vs):
    a = itv(I, s, vs[0], n['args'][0], n)
    if n['q'].endswith('fill_n'):
        k = vs[1]
    else:
        b = itv(I, s, vs[1], n['args'][1], n)
        k = sub(b.idx, a.idx) if isinstance(a, Ptr) and isinstance(b, Ptr) else None
    c = lval(I, s, vs[2], n['args'][2], n)
    if isinstance(a, Ptr) and is_num(k):
        v = I.peek(s, Ptr(a.obj, a.path))
        if isinstance(v, CBuf):
            return [(x, VOID) for x, _ in f_memset(I, s, dict(n, q='memset'), [a, c, k])]
    return None


@fun('std::replace', 'std::replace_if')
def f_replace(I, s, n, vs):
    if len(vs) != 4:
        return None
    a, b = rng(I, s, n, vs)
    tr = text_range(I, s, a, b, n)
    if tr is None or tr[3] or not isinstance(a, Ptr):
        return None
    t = tr[0]
    new = val(I, s, vs[3], n['args'][3], n)
    new = s.const(new) if is_num(new) else None
    tab = None
    if n['q'].endswith('_if'):
        f = char_table(I, s, vs[2], n)
        if f is not None and new is not None:
            tab = [(new & 255) if f[c] else c for c in range(256)]
    else:
        old = val(I, s, vs[2], n['args'][2], n)
        old = s.const(old) if is_num(old) else None
        if old is not None and new is not None:
            tab = [(new & 255) if c == old & 255 else c for c in range(256)]
    r = map_text(t, tab) if tab is not None else Str((new_unk(str_tags(t), slen(t)),))
    tgt = I.peek(s, Ptr(a.obj, a.path))
    if isinstance(tgt, Str) and s.eq(slen(tgt), slen(r)) and s.eq(a.idx, 0):
        I.store(s, Ptr(a.obj, a.path), r, n)
    else:
        overwrite(I, s, a, r, n)
    return [(s, None)]


@fun('std::remove', 'std::remove_if', 'std::unique', 'std::reverse', 'std::sort')
def f_remove(I, s, n, vs):
    a, b = rng(I, s, n, vs)
    tr = text_range(I, s, a, b, n)
    if tr is not None:
        t, lo, hi, rev = tr
        cs = str_cs(t)
        if n['q'].endswith('remove'):
            c = lval(I, s, vs[2], n['args'][2], n)
            c = s.const(c) if is_num(c) else None
            rem = frozenset((c & 255,)) if c is not None else None
        elif n['q'].endswith('remove_if'):
            rem = pred_set(I, s, vs[2], n)
        else:
            rem = None
        if rem is not None and not (cs & rem):
            return [(s, hi)]
        k = fresh('kept', 0, MAXLEN)
        s.assume_ge0(sub(slen(t), k))
        whole = I.peek(s, Ptr(lo.obj, lo.path))
        if isinstance(whole, Str) and s.eq(lo.idx, 0) and s.eq(hi.idx, slen(whole)):
            if is_lit(t) and rem is not None:
                kept = bytes(x for x in lbytes(t) if x not in rem)
                I.store(s, Ptr(lo.obj, lo.path), concat(lit(kept), Str((new_unk(frozenset(), len(lbytes(t)) - len(kept)),))), n)
                return [(s, Ptr(lo.obj, lo.path, True, len(kept)))]
            src = ('f', 'filt', t, cs - rem if rem is not None else cs)
            I.store(s, Ptr(lo.obj, lo.path), concat(Str((Seg(src, 0, k),)), Str((new_unk(str_tags(t), sub(slen(t), k)),))), n)
            return [(s, Ptr(lo.obj, lo.path, True, k))]
    return None


@fun('std::accumulate', 'std::equal', 'std::search', 'std::mismatch')
def f_none(I, s, n, vs):
    return None


# ---------------------------------------------------------------- smart pointers
UP = ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')


def ctor_up(I, s, n, vs):
    if not vs or n['pt'][0].k == 'nullptr':
        return [(s, Rec(n['cls'], {'p': NULL}))]
    if n.get('move') or n.get('copy') or nref(n['pt'][0]).k == 'rec':
        v = I.peek(s, vs[0])
        if isinstance(v, Rec):
            if n['pt'][0].rv and isinstance(vs[0], Ptr):
                I.store(s, vs[0], Rec(v.cls, dict(v.f, p=NULL)), n)
            return [(s, Rec(n['cls'], dict(v.f)))]
    f = {'p': vs[0]}
    if len(vs) > 1:
        d = vs[1]
        if isinstance(d, Ptr):
            dv = I.peek(s, d)
            d = dv if dv is not None else d
        f['d'] = d
    return [(s, Rec(n['cls'], f))]


CTORS['std::unique_ptr'] = ctor_up
CTORS['std::shared_ptr'] = ctor_up


def up_get(I, s, o):
    v = I.peek(s, o) if isinstance(o, Ptr) else o
    return v.f.get('p', NULL) if isinstance(v, Rec) else Top('smart pointer')


@meth(UP, 'get', 'operator->')
def up_arrow(I, s, n, o, vs):
    return [(s, up_get(I, s, o))]


@meth(UP, 'operator*')
def up_deref(I, s, n, o, vs):
    p = up_get(I, s, o)
    I.deref(s, p, n)
    return [(s, p)]


@meth(UP, 'operator[]')
def up_idx(I, s, n, o, vs):
    p = up_get(I, s, o)
    I.deref(s, p, n)
    return [(s, I.ptr_add(s, p, vs[0], n))]


@meth(UP, 'operator bool')
def up_bool(I, s, n, o, vs):
    return I.truth(s, up_get(I, s, o), n)


@meth(UP, 'release')
def up_release(I, s, n, o, vs):
    v = I.peek(s, o)
    p = up_get(I, s, o)
    I.store(s, o, Rec(v.cls, dict(v.f, p=NULL)), n)
    return [(s, p)]


def up_type(n):
    t = nref(n['obj']['t'])
    if t is not None and t.k == 'ptr':
        t = t.to
    return t


@meth(UP, 'reset', 'operator=')
def up_reset(I, s, n, o, vs):
    v = I.peek(s, o)
    old = up_get(I, s, o)
    new = NULL
    d = dict(v.f) if isinstance(v, Rec) else {}
    if vs:
        new = vs[0]
        if n['q'].endswith('operator='):
            a = nref(n['args'][0]['t'])
            if a.k == 'rec':
                w = I.peek(s, vs[0])
                if isinstance(w, Rec):
                    new = w.f.get('p', NULL)
                    if 'd' in w.f:
                        d['d'] = w.f['d']
                    I.store(s, vs[0], Rec(w.cls, dict(w.f, p=NULL)), n)
            else:
                new = NULL if a.k == 'nullptr' else vs[0]
    d['p'] = new
    dl = v.f.get('d') if isinstance(v, Rec) else None
    I.store(s, o, Rec(v.cls if isinstance(v, Rec) else 'std::unique_ptr', d), n)
    outs = I.drop_owned(s, old, dl, up_type(n), n)
    return [(x, o if n['q'].endswith('operator=') else VOID) for x in outs]


@fun('std::make_unique', 'std::make_shared')
def f_make_unique(I, s, n, vs):
    t = n['t']
    et = t.ta[0] if t is not None and t.ta else None
    if et is None:
        return None
    oid = s.new_id('h')
    if et.k == 'arr':
        k = vs[0]
        if et.to.ch:
            v = CBuf(k, EMPTY, 'Z')
        else:
            v = Arr(k, 0, k, I.zero(et.to), (), 'arr')
        s.h[oid] = Obj('new[]', v, 'alive', I.site(s, n, 'new %s[]' % et.to.s))
        return [(s, Rec(t.q, {'p': Ptr(oid, (), True, 0)}))]
    s.h[oid] = Obj('new', I.undef(et), 'alive', I.site(s, n, 'new ' + et.s), ty=et.s)
    if et.k == 'rec' and et.repo:
        cands = [m for m in I.P.records[et.q]['methods'] if m['kind'] == 'ctor' and not m.get('deleted') and m['np'] >= len(vs)]
        best = None
        for m in cands:
            if len(vs) == 1 and nref(n['args'][0]['t']).q == et.q:
                if m.get('copy'):
                    best = m
            elif m['np'] == len(vs) and not m.get('copy') and not m.get('move'):
                best = best or m
        if not vs and best is None:
            return [(x, Rec(t.q, {'p': Ptr(oid)})) for x in I.default_members(s, et.q, Ptr(oid), n)]
        if best is None:
            return None
        return [(x, Rec(t.q, {'p': Ptr(oid)})) for x in I.call_ctor(s, best['key'], et.q, Ptr(oid), vs, n)]
    v = anyval(I, s, vs[0], n['args'][0], n) if vs else I.zero(et)
    s.h[oid] = s.h[oid].with_(val=v)
    return [(s, Rec(t.q, {'p': Ptr(oid)}))]


CTORS['std::function'] = lambda I, s, n, vs: [(s, Rec('std::function', {'f': vs[0]} if vs else {}))]


@fun('htons', 'ntohs', 'htonl', 'ntohl', '__bswap_16', '__bswap_32')
def f_htons(I, s, n, vs):
    r = n['t'].rng() if n['t'] is not None else None
    v = vs[0]
    return [(s, sym(('swap', n['q'], v), *(r or (0, 1 << 32))) if is_num(v) else fresh('swap', 0, 1 << 32))]


# ---------------------------------------------------------------- summaries of library functions analysed on their own
def sum_base64(I, s, n, this, vs, loc):
    """Base64::Encode(bytes, length): reads exactly `length` bytes, result is the encoding of that text (C37 checks the body)"""
    p, k = vs
    if isinstance(p, Ptr):
        r = buf_at(I, s, p, n, 'read')
        if r is not None and isinstance(r[0], (CBuf, Str)):
            v, idx, _ = r
            txt, avail = (v.txt, v.cap) if isinstance(v, CBuf) else (v, add(slen(v), 1))
            if txt is not None:
                I.ob('bounds')
                end = add(idx, k)
                if not s.ge0(sub(avail, end)):
                    t = s.copy()
                    if t.assume_ge0(sub(end, add(avail, 1))):
                        I.alarm(t, 'oob-read', 'encodes %s bytes from offset %s of a buffer of %s bytes' % (show_num(k), show_num(idx), show_num(avail)), n, (end, avail))
                    if not s.assume_ge0(sub(avail, end)):
                        return []
                if s.ge0(sub(slen(txt), end)):
                    x = I.norm(s, I.cut3(s, txt, idx, end)[1])
                else:
                    x = Str(I.cut(s, txt, idx)[1].p + (new_unk(frozenset(('past-end',))),)) if not s.eq(end, slen(txt)) else I.cut(s, txt, idx)[1]
                return [(s, full(('f', 'b64', x)) if x.p else EMPTY)]
        return [(s, Str((new_unk(frozenset(('b64',)), cs=B64CH),)))]
    if p is NULL and is_num(k) and s.const(k) == 0:
        return [(s, EMPTY)]
    I.deref(s, p, n, 'read')
    return [(s, Str((new_unk(frozenset(('b64',)), cs=B64CH),)))]


SUMMARIES = {'jed_utils::Base64::Encode': sum_base64}
