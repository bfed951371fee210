"""Abstract machine state: heap of immutable values, numeric constraints, canonical form, join, folding, reachability."""
from .dom import *

import itertools


class Infeasible(Exception):
    pass


class Obj:
    """heap/stack object. fam: a family of objects, one per index in [lo,hi); those in [flo,fhi) are already freed"""
    __slots__ = ('kind', 'val', 'status', 'site', 'fam', 'lo', 'hi', 'flo', 'fhi', 'ex', 'ty')

    def __init__(self, kind, val, status='alive', site=None, fam=False, lo=0, hi=0, flo=0, fhi=0, ex=(), ty=None):
        self.kind = kind; self.val = val; self.status = status; self.site = site; self.fam = fam
        self.lo = lo; self.hi = hi; self.flo = flo; self.fhi = fhi; self.ex = ex; self.ty = ty

    def with_(self, **kw):
        o = Obj(self.kind, self.val, self.status, self.site, self.fam, self.lo, self.hi, self.flo, self.fhi, self.ex, self.ty)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return self is o or (self.kind == o.kind and self.status == o.status and self.fam == o.fam and self.val == o.val and
                             self.lo == o.lo and self.hi == o.hi and self.flo == o.flo and self.fhi == o.fhi and self.ex == o.ex)

    def __repr__(self):
        return '%s/%s%s %r' % (self.kind, self.status, ' fam[%s,%s)-[%s,%s)%r' % (show_num(self.lo), show_num(self.hi), show_num(self.flo), show_num(self.fhi), self.ex) if self.fam else '', self.val)


class State:
    __slots__ = ('h', 'cl', 'depth', 'stack', 'cons', 'facts', 'exc', 'approx', 'trace', 'ctr')

    def __init__(self):
        self.h = {}; self.cl = (); self.depth = 0; self.stack = (); self.cons = {}; self.facts = ()
        self.exc = None; self.approx = None; self.trace = None; self.ctr = 0

    def copy(self):
        s = State.__new__(State)
        s.h = dict(self.h); s.cl = self.cl; s.depth = self.depth; s.stack = self.stack; s.cons = dict(self.cons)
        s.facts = self.facts; s.exc = self.exc; s.approx = self.approx; s.trace = self.trace; s.ctr = self.ctr
        return s

    def note(self, txt):
        self.trace = (self.trace, txt)

    def notes(self, last=14):
        out = []
        t = self.trace
        while t is not None and len(out) < last:
            out.append(t[1]); t = t[0]
        return list(reversed(out))

    def imprecise(self, why):
        if self.approx is None:
            self.approx = why

    def new_id(self, kind='h'):
        self.ctr += 1
        return (kind, self.ctr)

    # ------------------------------------------------------------ numbers
    def iv(self, s):
        return self.cons.get(s) or SYMS[s].nat

    def bounds(self, v):
        if isinstance(v, int):
            return int(v), int(v)
        lo = hi = v.c
        for s, k in v.t:
            iv = self.cons.get(s) or SYMS[s].nat
            a, b = iv[0][0], iv[-1][1]
            if k > 0:
                lo += a * k; hi += b * k
            else:
                lo += b * k; hi += a * k
        return max(lo, -INF), min(hi, INF)

    def vals(self, v):
        """interval set of v (exact for one symbol with unit coefficient)"""
        if isinstance(v, int):
            return ((int(v), int(v)),)
        s = single(v)
        if s and s[1] == 1:
            return tuple((a + s[2], b + s[2]) for a, b in self.iv(s[0]))
        if s and s[1] == -1:
            return tuple(sorted((s[2] - b, s[2] - a) for a, b in self.iv(s[0])))
        return (self.bounds(v),)

    def const(self, v):
        """the only possible value or None"""
        if isinstance(v, int):
            return int(v)
        if isinstance(v, Lin):
            a, b = self.bounds(v)
            if a == b:
                return a
        return None

    def ge0(self, d):
        """entailed d >= 0"""
        if isinstance(d, int):
            return d >= 0
        if self.bounds(d)[0] >= 0:
            return True
        F = self.relevant(d)
        if not F:
            return False
        for f in F:
            if self.lowb(sub(d, f)) >= 0:
                return True
        if len(F) > 1:
            for i, f in enumerate(F):
                df = sub(d, f)
                for g in self.relevant(df, F[i + 1:]):
                    if self.lowb(sub(df, g)) >= 0:
                        return True
        return False

    def relevant(self, d, F=None):
        if not isinstance(d, Lin):
            return []
        ss = {s for s, _ in d.t}
        return [f for f in (self.facts if F is None else F) if any(s in ss for s, _ in f.t)]

    def lowb(self, d):
        return d if isinstance(d, int) else self.bounds(d)[0]

    def gt0(self, d):
        return self.ge0(sub(d, 1))

    def eq(self, a, b):
        """entailed a == b"""
        d = sub(a, b)
        if isinstance(d, int):
            return d == 0
        return self.ge0(d) and self.ge0(neg(d))

    def ne(self, a, b):
        d = sub(a, b)
        if isinstance(d, int):
            return d != 0
        s = single(d)
        if s and s[1] in (1, -1):
            v = -s[2] * s[1]
            return not any(x <= v <= y for x, y in self.iv(s[0]))
        return self.ge0(sub(d, 1)) or self.ge0(sub(neg(d), 1))

    def assume_ge0(self, d):
        """constrain d >= 0; False if impossible"""
        if isinstance(d, int):
            return d >= 0
        if self.bounds(d)[1] < 0:
            return False
        s = single(d)
        if s and s[1] in (1, -1):
            iv = self.iv(s[0])
            if s[1] == 1:
                iv = iv_inter(iv, ((-s[2], INF * 4),))
            else:
                iv = iv_inter(iv, ((-INF * 4, s[2]),))
            if not iv:
                return False
            self.cons[s[0]] = iv
            return self.recheck(s[0])
        if self.ge0(d):
            return True
        nd = sub(neg(d), 1)     # negation: -d-1 >= 0
        if self.ge0(nd):
            return False
        if self.ge0(neg(d)):    # d <= 0 known: d == 0
            return self.assume_eq0(d)
        self.facts = self.facts + (d,)
        if len(self.facts) > 60:
            self.facts = self.facts[-60:]
        return True

    def recheck(self, s):
        for f in self.facts:
            if any(x == s for x, _ in f.t) and self.bounds(f)[1] < 0:
                return False
        return True

    def assume_eq0(self, d):
        if isinstance(d, int):
            return d == 0
        s = single(d)
        if s:
            if -s[2] % s[1]:
                return False
            v = -s[2] // s[1]
            iv = iv_inter(self.iv(s[0]), ((v, v),))
            if not iv:
                return False
            self.cons[s[0]] = iv
            return self.recheck(s[0])
        lo, hi = self.bounds(d)
        if lo > 0 or hi < 0 or self.gt0(d) or self.gt0(neg(d)):
            return False
        # substitute an unstructured symbol
        best = None
        for x, k in d.t:
            if k in (1, -1):
                p = (SYMS[x].key is not None, -x)
                if best is None or p < best[0]:
                    best = (p, x, k)
        if best is not None:
            x, k = best[1], best[2]
            rest = sub(d, Lin(0, ((x, k),)))
            e = mulc(rest, -k)
            if x in deps_of(e):
                if d not in self.facts:
                    self.facts = self.facts + (d, neg(d))
                return True
            iv = self.iv(x)
            se = single(e) if isinstance(e, Lin) else None
            if se and se[1] == 1:
                niv = iv_inter(self.iv(se[0]), tuple((a - se[2], b - se[2]) for a, b in iv))
                if not niv:
                    return False
                self.cons[se[0]] = niv
            elif isinstance(e, Lin):
                if not (self.assume_ge0(sub(e, iv[0][0])) and self.assume_ge0(sub(iv[-1][1], e))):
                    return False
            if SYMS[x].key is not None:
                # keep structured symbols' identity: only record the equality
                self.facts = self.facts + (d, neg(d))
                return True
            return self.substitute({x: e})
        self.facts = self.facts + (d, neg(d))
        return True

    def assume_ne0(self, d):
        if isinstance(d, int):
            return d != 0
        s = single(d)
        if s:
            if -s[2] % s[1]:
                return True
            iv = iv_remove(self.iv(s[0]), -s[2] // s[1])
            if not iv:
                return False
            self.cons[s[0]] = iv
            return self.recheck(s[0])
        if self.ge0(d):
            return self.assume_ge0(sub(d, 1))
        if self.ge0(neg(d)):
            return self.assume_ge0(sub(neg(d), 1))
        return True

    def substitute(self, m, om=None, sm=None, everything=True):
        S = Subst(m, om, sm)
        h = {}
        for k, o in self.h.items():
            nk = k if om is None else om.get(k, k)
            h[nk] = self._subobj(o, S)
        self.h = h
        if om:
            self.cl = tuple((om.get(a, a), b, c) for a, b, c in self.cl)
            if self.exc is not None:
                self.exc = S.any(self.exc)
        cons = {}
        for s, iv in self.cons.items():
            if s in m:
                continue
            i = SYMS[s]
            if i.key is not None and (sm or not i.deps.isdisjoint(m)):
                v = S.symk(s)
                sv = single(v) if isinstance(v, Lin) else None
                if sv and sv[1] == 1 and sv[2] == 0:
                    old = cons.get(sv[0]) or self.cons.get(sv[0])
                    niv = iv_inter(old, iv) if old else iv
                    if niv:
                        cons[sv[0]] = niv
                continue
            cons[s] = iv if s not in cons else (iv_inter(cons[s], iv) or iv)
        self.cons = cons
        fs = []
        ok = True
        for f in self.facts:
            g = S.num(f)
            if isinstance(g, int):
                if g < 0:
                    ok = False
                continue
            if self.bounds(g)[0] >= 0:
                continue
            if self.bounds(g)[1] < 0:
                ok = False
            if g not in fs:
                fs.append(g)
        self.facts = tuple(fs)
        return ok

    @staticmethod
    def _subobj(o, S):
        v = S.any(o.val)
        if not o.fam:
            return o if v is o.val else o.with_(val=v)
        if IDXSYM in S.m:
            S2 = Subst({k: x for k, x in S.m.items() if k != IDXSYM}, S.om, S.sm)
            v = S2.any(o.val)
        return o.with_(val=v, lo=S.num(o.lo), hi=S.num(o.hi), flo=S.num(o.flo), fhi=S.num(o.fhi),
                       ex=tuple((S.num(k), s_, S.any(x)) for k, s_, x in o.ex))

    # ------------------------------------------------------------ reachability
    def roots(self):
        return [k for k, o in self.h.items() if k[0] not in ('h', 'S', 'F')]

    def canon(self, on_leak=None):
        """garbage-collect (reporting unreachable live heap objects) and rename heap objects in traversal order"""
        order = []
        seen = set()
        def skey(k):
            return str(k)
        todo = sorted(self.roots(), key=skey)
        todo.reverse()
        visited_roots = set(todo)
        om = {}
        syms = set()
        nh = [0]; nf = [0]

        def visit(v):
            d, o, r = meta(v)
            syms.update(d)
            for x in o:
                vobj(x)

        def vobj(oid):
            if oid in seen:
                return
            o = self.h.get(oid)
            if o is None:
                return
            seen.add(oid)
            if oid[0] == 'h':
                nh[0] += 1
                om[oid] = ('h', nh[0])
            elif oid[0] == 'F':
                nf[0] += 1
                om[oid] = ('F', nf[0])
            visit(o.val)
            if o.fam:
                for x in (o.lo, o.hi, o.flo, o.fhi):
                    deps_of(x, syms)
                for k, s_, x in o.ex:
                    deps_of(k, syms); visit(x)

        while todo:
            k = todo.pop()
            seen.add(k)
            visit(self.h[k].val)
        if self.exc is not None:
            visit(self.exc)
        strong = set(syms)
        dead = []
        for k in list(self.h):
            if k[0] in ('h', 'F') and k not in seen:
                o = self.h[k]
                if o.status == 'alive' and o.kind in ('new', 'new[]', 'handle') and not (o.fam and self.fam_empty(o)):
                    dead.append((k, o))
                del self.h[k]
        # only report the top of each leaked structure
        if dead and on_leak:
            inner = set()
            for k, o in dead:
                for t in ptr_targets(o.val):
                    if t != k:
                        inner.add(t)
            tops = [(k, o) for k, o in dead if k not in inner] or dead[:1]
            on_leak(self, [o for k, o in tops])
        # sessions: weak references
        ns = 0
        for k in sorted((k for k in self.h if k[0] == 'S'), key=lambda x: x[1]):
            o = self.h[k]
            ns += 1
            om[k] = ('S', ns)
            deps_of(o.val, syms)
        if any(a != b for a, b in om.items()):
            S = Subst({}, RenObj(om), None)
            h = {}
            for k, o in self.h.items():
                nk = om.get(k, k)
                h[nk] = self._subobj(o, S)
            self.h = h
            self.cl = tuple((om.get(a, a), b, c) for a, b, c in self.cl)
            if self.exc is not None:
                self.exc = S.any(self.exc)
        self.ctr = max([nh[0], nf[0], ns] + [k[1] for k in self.h if k[0] in ('h', 'F', 'S', 't') and isinstance(k[1], int)])
        # drop constraints on dead symbols
        facts = [f for f in self.facts if all(s in syms for s, _ in f.t)]
        deadf = [f for f in self.facts if not all(s in syms for s, _ in f.t)]
        if deadf:
            facts += self.eliminate(deadf, syms, facts)
        self.facts = tuple(sorted(set(facts), key=lambda f: (f.t, f.c)))
        live = set(syms)
        for f in self.facts:
            live.update(s for s, _ in f.t)
        self.cons = {s: iv for s, iv in self.cons.items() if s in live and iv != SYMS[s].nat}
        return strong

    def eliminate(self, deadf, syms, keep):
        """one round of combining facts to get rid of dead symbols"""
        out = []
        allf = deadf + keep
        for i, f in enumerate(deadf):
            ds = [s for s, _ in f.t if s not in syms]
            if len(ds) != 1:
                continue
            cf = dict(f.t)[ds[0]]
            for g in deadf:
                if g is f:
                    continue
                cg = dict(g.t).get(ds[0])
                if cg is None or cf * cg >= 0:
                    continue
                if cf < 0:
                    continue
                r = add(mulc(f, -cg), mulc(g, cf))
                if isinstance(r, Lin) and all(s in syms for s, _ in r.t) and self.bounds(r)[0] < 0 and len(out) < 8:
                    out.append(r)
            # interval of the dead symbol
            iv = self.iv(ds[0])
            lo, hi = iv[0][0], iv[-1][1]
            b = hi if cf > 0 else lo
            if abs(b) < INF:
                r = add(sub(f, Lin(0, ((ds[0], cf),))), cf * b)
                if isinstance(r, Lin) and self.bounds(r)[0] < 0 and len(out) < 8:
                    out.append(r)
        return out

    def fam_empty(self, o):
        """no live member left"""
        if o.ex:
            for k, s_, v in o.ex:
                if s_ == 'alive':
                    return False
        if self.ge0(sub(o.lo, o.hi)):
            return True
        n = sub(o.hi, o.lo)
        # freed range plus freed exceptions covers everything
        if self.ge0(sub(o.lo, o.flo)) and self.ge0(sub(o.fhi, o.hi)):
            return True
        return False

    # ------------------------------------------------------------ shape key
    def key(self):
        hs = []
        for k in sorted(self.h, key=str):
            o = self.h[k]
            hs.append((k, o.kind, o.status, o.fam, len(o.ex), shape(o.val, self)))
        return (self.depth, self.stack, tuple(a for a, b, c in self.cl), tuple(hs), shape(self.exc, self) if self.exc is not None else None,
                self.approx is not None)


class RenObj:
    def __init__(self, om):
        self.om = om
        self.fm = {k[1]: v[1] for k, v in om.items() if k[0] == 'F'}

    def get(self, o, d=None):
        if isinstance(o, tuple):
            return self.om.get(o, d)
        return self.fm.get(o, d)


def ptr_targets(v, out=None):
    if out is None:
        out = set()
    t = type(v)
    if t is Ptr:
        if v.obj is not None:
            out.add(('F', v.obj[1]) if v.obj[0] == 'F' else v.obj)
    elif t is Rec:
        for x in v.f.values():
            ptr_targets(x, out)
    elif t is Arr:
        if v.tmpl is not None:
            ptr_targets(v.tmpl, out)
        for k, x in v.ex:
            ptr_targets(x, out)
    elif t is tuple:
        for x in v:
            ptr_targets(x, out)
    return out


def shape(v, st=None, exact=False):
    t = type(v)
    if t is bool:
        return v
    if t is int:
        return 'n'
    if t is Lin:
        if len(v.t) == 1:
            k = SYMS[v.t[0][0]].key
            if k is not None and k[0] == 'stoi' and k[1][0] == 'rep':
                # the number a reply starts with: not mixed with other numbers
                return ('n', k[1])
        return 'n'
    if t is Ptr:
        o = v.obj
        if o is not None and o[0] == 'F':
            o = ('F', o[1])
        elif o is not None and o[0] == 'L':
            o = 'L'
        return ('p', o, tuple(p if isinstance(p, str) else 'e' for p in v.path), v.arr)
    if t is Str:
        if exact:
            return str_shape(v)
        r = sum(1 for p in v.p if isinstance(p, Rep))
        return ('s', r) if r else 's'
    if t is Rec:
        if v._s is None:
            v._s = rec_shape(v, st)
        return v._s
    if t is Arr:
        return ('a', v.kind, None if v.tmpl is None else shape(v.tmpl, st), tuple(shape(x, st) for k, x in v.ex))
    if t is CBuf:
        r = sum(1 for p in v.txt.p if isinstance(p, Rep)) if v.txt is not None else -1
        return ('c', v.term, r)
    if t is tuple:
        return tuple(shape(x, st) for x in v)
    if t is Top:
        return 'T'
    return v


def rec_shape(v, st):
    if len(v.f) >= 4 and all(type(x) is bool or type(x) is int or type(x) is Lin for x in v.f.values()):
        # a set of flags: its combinations are not told apart
        return (v.cls, 'n')
    return (v.cls, tuple((k, shape(v.f[k], st, isinstance(k, str) and k.startswith('!'))) for k in sorted(v.f, key=str)))


def str_shape(s):
    out = []
    for p in s.p:
        if isinstance(p, bytes):
            out.append(p)
        elif isinstance(p, Seg):
            out.append(('g', src_shape(p.src)))
        elif isinstance(p, Rep):
            out.append(('r', frozenset(str_shape(a) for a in p.alts)))
        else:
            out.append(('u', p.tags))
    return tuple(out)


def src_shape(s):
    return tuple('#' if isinstance(x, (int, Lin)) else str_shape(x) if isinstance(x, Str) else src_shape(x) if isinstance(x, tuple) else x for x in s)


# ---------------------------------------------------------------- join
class NoJoin(Exception):
    pass


class Joiner:
    def __init__(self, A, B, widen=False):
        self.A = A; self.B = B; self.widen = widen
        self.nums = {}      # (a,b) normalised -> Lin
        self.pairs = []     # (fresh sym id, a, b)
        self.strs = {}

    def num(self, a, b, text=False):
        if a == b:
            if isinstance(a, bool) and not isinstance(b, bool):
                return b
            return a
        A, B = self.A, self.B
        if isinstance(a, Lin):
            c = A.const(a)
            a = c if c is not None else a
        if isinstance(b, Lin):
            c = B.const(b)
            b = c if c is not None else b
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return int(a)
        a = int(a) if isinstance(a, int) else a
        b = int(b) if isinstance(b, int) else b
        off = a if isinstance(a, int) else a.c
        k = (sub(a, off), sub(b, off))
        r = self.nums.get(k)
        if r is None:
            if isinstance(k[0], int) and isinstance(k[1], int):
                for (x, y), f in self.nums.items():
                    if isinstance(x, int) and isinstance(y, int) and y and k[1] % y == 0:
                        r = mulc(f, k[1] // y)
                        self.nums[k] = r
                        return add(r, off)
                # a symbol known on both sides (a loop counter) that moves along
                for s in A.cons:
                    ia = A.cons.get(s); ib = B.cons.get(s)
                    if ib is not None and ia and ib and ia[0][0] == ia[-1][1] and ib[0][0] == ib[-1][1]:
                        xa, xb = ia[0][0], ib[0][0]
                        if xa != xb and k[1] % (xb - xa) == 0:
                            r = mulc(sub(Lin(0, ((s, 1),)), xa), k[1] // (xb - xa))
                            self.nums[k] = r
                            return add(r, off)
            if text and not isinstance(k[0], int) and not isinstance(k[1], int):
                # a length that moves along with another number
                for (x, y), f in self.nums.items():
                    c = sub(k[0], x)
                    if isinstance(c, Lin) and c == sub(k[1], y) and len(c.t) == 1 and abs(c.t[0][1]) == 1:
                        r = add(f, c)
                        self.nums[k] = r
                        return add(r, off)
            va, vb = A.vals(k[0]), B.vals(k[1])
            iv = iv_union(va, vb)
            if self.widen:
                al, ah = va[0][0], va[-1][1]
                lo, hi = iv[0][0], iv[-1][1]
                if hi > ah:
                    hi = INF
                    for lim in (MAXLEN, 1 << 40, 1 << 48):
                        if ah <= lim and B.ge0(sub(lim, k[1])):
                            hi = lim
                            break
                    if text and hi == INF:
                        hi = 1 << 48        # no text is longer
                if lo < al:
                    lo = 0 if al > 0 and lo >= 0 else -INF
                iv = ((lo, hi),) if (hi != iv[-1][1] or lo != iv[0][0]) else iv
                if len(iv) > 6:
                    iv = ((lo, hi),)
            elif len(iv) > 24:
                iv = ((iv[0][0], iv[-1][1]),)
            f = fresh('j', approx=True)
            s = f.t[0][0]
            self.iv[s] = iv
            self.nums[k] = f
            self.pairs.append((s, k[0], k[1]))
            r = f
        return add(r, off)

    iv = None

    def val(self, a, b):
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if (ta is int or ta is Lin or ta is bool) and (tb is int or tb is Lin or tb is bool):
            return self.num(a, b)
        if a == b:
            return a
        if ta is Str and tb is Str:
            return self.str(a, b)
        if ta is not tb:
            if ta is Top or tb is Top:
                return Top('join', getattr(a, 'tags', frozenset()) | getattr(b, 'tags', frozenset()))
            return Top('join of %s and %s' % (ta.__name__, tb.__name__))
        if ta is Rec:
            if a.cls != b.cls:
                raise NoJoin('cls')
            d = {}
            for k in a.f:
                if k in b.f:
                    d[k] = self.val(a.f[k], b.f[k])
            return Rec(a.cls, d)
        if ta is Ptr:
            oa, ob = a.obj, b.obj
            if oa != ob:
                if oa is not None and ob is not None and oa[0] == 'F' and ob[0] == 'F' and oa[1] == ob[1]:
                    o = ('F', oa[1], self.num(oa[2], ob[2]))
                elif oa is not None and ob is not None and oa[0] == 'L' and ob[0] == 'L':
                    o = ('L', self.str(oa[1], ob[1]))
                else:
                    raise NoJoin('ptr')
            else:
                o = oa
            if a.arr != b.arr or len(a.path) != len(b.path):
                raise NoJoin('ptr')
            path = tuple(x if x == y else ('e', self.num(x[1], y[1])) if isinstance(x, tuple) and isinstance(y, tuple) else self.bad() for x, y in zip(a.path, b.path))
            return Ptr(o, path, a.arr, self.num(a.idx, b.idx))
        if ta is Arr:
            if len(a.ex) != len(b.ex) or (a.tmpl is None) != (b.tmpl is None) or a.kind != b.kind:
                raise NoJoin('arr')
            n = self.num(a.n, b.n)
            if a.tmpl is not None:
                lo, hi = self.num(a.lo, b.lo), self.num(a.hi, b.hi)
                tm = self.tmpl(a.tmpl, b.tmpl)
            else:
                lo = hi = 0; tm = None
            return Arr(n, lo, hi, tm, tuple((self.num(k, k2), self.val(x, y)) for (k, x), (k2, y) in zip(a.ex, b.ex)), a.kind)
        if ta is CBuf:
            if a.term != b.term:
                raise NoJoin('cbuf')
            return CBuf(self.num(a.cap, b.cap), self.str(a.txt, b.txt), a.term)
        if ta is Top:
            return Top(a.why, a.tags | b.tags)
        if ta is tuple and len(a) == len(b):
            return tuple(self.val(x, y) for x, y in zip(a, b))
        raise NoJoin('val %r %r' % (a, b))

    def bad(self):
        raise NoJoin('path')

    def tmpl(self, a, b):
        if a == b:
            return a
        ta, tb = type(a), type(b)
        if ta is Ptr and tb is Ptr or ta is Rec and tb is Rec:
            try:
                s = shape(a) == shape(b)
            except Exception:
                s = False
            if s and ta is Rec and a.cls == b.cls and set(a.f) == set(b.f):
                return Rec(a.cls, {k: self.tmpl(a.f[k], b.f[k]) for k in a.f})
            if s and ta is Ptr and a.obj[0] == 'F' and a.path == b.path and a.idx == b.idx and a.obj[2] == b.obj[2]:
                return a
        if ta is Str and tb is Str:
            return Str((new_unk(str_tags(a) | str_tags(b), None, str_cs(a) | str_cs(b)),))
        if is_num(a) and is_num(b):
            return Top('element values differ')
        if ta is CBuf and tb is CBuf and a.term == b.term:
            return CBuf(a.cap if a.cap == b.cap else Top('cap'), self.tmpl(a.txt, b.txt), a.term)
        return Top('template join')

    def str(self, a, b):
        if a == b:
            return a
        if a is None or b is None:
            raise NoJoin('str')
        k = (a, b)
        r = self.strs.get(k)
        if r is None:
            # componentwise when the structure agrees
            if len(a.p) == len(b.p) and str_shape(a) == str_shape(b):
                try:
                    parts = []
                    for x, y in zip(a.p, b.p):
                        if x == y:
                            parts.append(x)
                        elif isinstance(x, Seg) and isinstance(y, Seg) and self.same_src(x.src, y.src) is not None:
                            parts.append(Seg(self.same_src(x.src, y.src), self.num(x.off, y.off, True), self.num(x.n, y.n, True)))
                        elif isinstance(x, Rep) and isinstance(y, Rep):
                            parts.append(Rep(x.alts if x.alts == y.alts else x.alts | y.alts, self.num(x.lo, y.lo), self.num(x.hi, y.hi)))
                        elif isinstance(x, Unk) and isinstance(y, Unk) and x.tags == y.tags:
                            parts.append(self.unk(x, y))
                        else:
                            raise NoJoin('p')
                    r = mkstr(parts)
                except NoJoin:
                    r = None
            if r is None and len(a.p) == 1 and len(b.p) == 1 and isinstance(a.p[0], Seg) and isinstance(b.p[0], Seg) and a.p[0].src == b.p[0].src:
                x, y = a.p[0], b.p[0]
                r = mkstr([Seg(x.src, self.num(x.off, y.off, True), self.num(x.n, y.n, True))])
            if r is None and len(a.p) + len(b.p) == 1:
                x = (a.p + b.p)[0]
                if isinstance(x, Seg) and x.src[0] == 'rep':
                    # nothing received yet / a part of the reply received
                    r = Str((Seg(x.src, x.off, self.num(0, x.n) if not a.p else self.num(x.n, 0)),))
            if r is None:
                r = Str((self.unkp(a, b),))
            self.strs[k] = r
        return r

    def unk(self, x, y):
        return self.unkp(Str((x,)), Str((y,)))

    def unkp(self, a, b):
        tg = compact_tags(str_tags(a) | str_tags(b))
        return new_unk(tg, self.num(slen(a), slen(b), True), str_cs(a) | str_cs(b))

    def same_src(self, x, y):
        if x == y:
            return x
        if x[0] == 'el' and y[0] == 'el' and x[1] == y[1] and x[3] == y[3]:
            return ('el', x[1], self.num(x[2], y[2]), x[3])
        if len(x) == len(y):
            out = []
            for p, q in zip(x, y):
                if p == q:
                    out.append(p)
                elif is_num(p) and is_num(q):
                    out.append(self.num(p, q))
                elif isinstance(p, tuple) and isinstance(q, tuple):
                    r = self.same_src(p, q)
                    if r is None:
                        return None
                    out.append(r)
                elif isinstance(p, Str) and isinstance(q, Str):
                    out.append(self.str(p, q))
                else:
                    return None
            return tuple(out)
        return None

    def run(self):
        A, B = self.A, self.B
        if set(A.h) != set(B.h):
            raise NoJoin('heap')
        J = State()
        self.iv = {}
        J.depth = A.depth; J.stack = A.stack; J.cl = A.cl; J.ctr = max(A.ctr, B.ctr)
        J.approx = A.approx or B.approx
        J.trace = A.trace
        for k in sorted(A.h, key=str):
            a, b = A.h[k], B.h[k]
            if a is b or a.same(b):
                J.h[k] = a; continue
            if a.kind != b.kind or a.status != b.status or a.fam != b.fam:
                raise NoJoin('obj')
            if a.fam:
                if len(a.ex) != len(b.ex):
                    raise NoJoin('famex')
                J.h[k] = a.with_(val=self.tmpl(a.val, b.val), lo=self.num(a.lo, b.lo), hi=self.num(a.hi, b.hi), flo=self.num(a.flo, b.flo),
                                 fhi=self.num(a.fhi, b.fhi), ex=tuple((self.num(x[0], y[0]), x[1], self.val(x[2], y[2])) for x, y in zip(a.ex, b.ex)))
            else:
                J.h[k] = a.with_(val=self.val(a.val, b.val))
        if A.exc is not None:
            J.exc = self.val(A.exc, B.exc)
        # numeric constraints
        J.cons = dict(self.iv)
        for s in set(A.cons) & set(B.cons):
            if s not in J.cons:
                iv = iv_union(A.cons[s], B.cons[s])
                if self.widen and iv != A.cons[s]:
                    lo = iv[0][0] if iv[0][0] >= A.cons[s][0][0] else SYMS[s].nat[0][0]
                    hi = iv[-1][1] if iv[-1][1] <= A.cons[s][-1][1] else SYMS[s].nat[-1][1]
                    iv = ((lo, hi),)
                J.cons[s] = iv
        # facts valid in both
        toA = Subst({s: a for s, a, b in self.pairs}); toB = Subst({s: b for s, a, b in self.pairs})
        invA, invB = {}, {}
        for s, a, b in self.pairs:
            f = Lin(0, ((s, 1),))
            for inv, x in ((invA, a), (invB, b)):
                sg = single(x) if isinstance(x, Lin) else None
                if sg and sg[1] == 1 and sg[0] not in inv:
                    inv[sg[0]] = sub(f, sg[2])
        cand = []
        IA, IB = Subst(invA), Subst(invB)
        for f in A.facts:
            cand.append(f); cand.append(IA.num(f))
        for f in B.facts:
            cand.append(f); cand.append(IB.num(f))
        # interval facts between joined symbols and other symbols hold through pairs: relations a<=x in A from intervals
        seen = set()
        for f in cand:
            if not isinstance(f, Lin) or f in seen:
                continue
            seen.add(f)
            if J.bounds(f)[0] >= 0:
                continue
            fa, fb = toA.num(f), toB.num(f)
            if (fa >= 0 if isinstance(fa, int) else A.ge0(fa)) and (fb >= 0 if isinstance(fb, int) else B.ge0(fb)):
                J.facts = J.facts + (f,)
        return J

    def stable(self, J):
        """J equals A up to renaming of the fresh symbols"""
        A = self.A
        ren = {}
        used = set()
        for s, a, b in self.pairs:
            sg = single(a) if isinstance(a, Lin) else None
            if not sg or sg[1] != 1 or sg[0] in used or sg[2] != 0:
                return False
            used.add(sg[0])
            ren[s] = Lin(0, ((sg[0], 1),))
        K = J.copy()
        # the replaced symbols must not occur any more
        live = set()
        for o in K.h.values():
            deps_of(o.val, live)
            if o.fam:
                for x in (o.lo, o.hi, o.flo, o.fhi):
                    deps_of(x, live)
        if used & live:
            return False
        K.substitute(ren)
        if set(K.h) != set(A.h):
            return False
        for k, o in K.h.items():
            if not same_mod_unk(o, A.h[k]):
                return False
        live2 = set()
        for o in A.h.values():
            deps_of(o.val, live2)
        for s, a, b in self.pairs:
            if J.iv(s) != A.vals(a):
                return False
        for s, iv in A.cons.items():
            if s in live2 and s not in used and K.cons.get(s, SYMS[s].nat) != iv:
                return False
        kf = set(K.facts)
        for f in A.facts:
            if f not in kf and all(s in live2 for s, _ in f.t) and not K.ge0(f):
                return False
        return True


def same_mod_unk(a, b):
    if a.same(b):
        return True
    if a.kind != b.kind or a.status != b.status or a.fam != b.fam:
        return False
    return eq_mod_unk(a.val, b.val) and (a.lo, a.hi, a.flo, a.fhi, a.ex) == (b.lo, b.hi, b.flo, b.fhi, b.ex)


def eq_mod_unk(a, b):
    if a is b or a == b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Str):
        return len(a.p) == len(b.p) and all(x == y or (isinstance(x, Unk) and isinstance(y, Unk) and x.tags == y.tags and x.cs == y.cs) or
                                             (isinstance(x, Seg) and isinstance(y, Seg) and x.src == y.src and False) for x, y in zip(a.p, b.p))
    if isinstance(a, Rec):
        return a.cls == b.cls and set(a.f) == set(b.f) and all(eq_mod_unk(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, CBuf):
        return a.term == b.term and (a.cap == b.cap or (isinstance(a.cap, Lin) and isinstance(b.cap, Lin))) and eq_mod_unk(a.txt, b.txt)
    if isinstance(a, Arr):
        return (a.n, a.lo, a.hi, a.kind) == (b.n, b.lo, b.hi, b.kind) and (a.tmpl is None) == (b.tmpl is None) and \
            (a.tmpl is None or eq_mod_unk(a.tmpl, b.tmpl)) and len(a.ex) == len(b.ex) and all(x[0] == y[0] and eq_mod_unk(x[1], y[1]) for x, y in zip(a.ex, b.ex))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(eq_mod_unk(x, y) for x, y in zip(a, b))
    if isinstance(a, Top):
        return True
    return False


def compact_tags(t):
    return t


def join(A, B, widen=False):
    j = Joiner(A, B, widen)
    J = j.run()
    return J, j


def merge_states(states, on_leak=None, limit=None):
    """merge the states of a control point by shape"""
    if len(states) < 2:
        return states
    groups = {}
    order = []
    for s in states:
        s.canon(on_leak)
        k = s.key()
        if k in groups:
            try:
                J, _ = join(groups[k], s)
                J.canon(on_leak)
                groups[k] = J
                continue
            except NoJoin:
                k = (k, id(s))
        groups[k] = s
        order.append(k)
    return [groups[k] for k in order]


# ---------------------------------------------------------------- loop folding
def fold(I, S, ksym, on_fail=None):
    """rewrite S (end of an iteration started at head state I with loop index k) so that what the iteration appended
    becomes part of an indexed range"""
    k = Lin(0, ((ksym, 1),))
    # arrays: explicit elements added by this iteration
    for oid in list(S.h):
        o = S.h.get(oid)
        if o is None:
            continue    # absorbed into a family
        nv = _fold_val(I, S, o.val, _old(I, oid), k, oid)
        if nv is not o.val:
            S.h[oid] = S.h[oid].with_(val=nv)
        o = S.h.get(oid)
        if o is None:
            continue
        if o.fam and o.ex:
            _fold_fam(S, oid, k)


def _old(I, oid):
    o = I.h.get(oid)
    return None if o is None else o.val


def _shift(e, k):
    """substitution k := $i - c for index e = k + c"""
    d = sub(e, k)
    if isinstance(d, int):
        return {k.t[0][0]: sub(IDX, d)}
    return None


def _fold_val(I, S, v, old, k, oid):
    t = type(v)
    if t is Arr:
        oldn = set(e for e, _ in old.ex) if type(old) is Arr else set()
        new = [(e, x) for e, x in v.ex if e not in oldn or deps_of(e) & {k.t[0][0]}]
        for e, x in new:
            m = _shift(e, k)
            if m is None:
                continue
            cur = v
            if cur.tmpl is not None and cur.hi != e and not S.eq(cur.hi, e):
                if S.ge0(sub(e, cur.lo)) and S.gt0(sub(cur.hi, e)):
                    # an element of the known range is overwritten on every turn: the range is no longer uniform
                    ex = tuple(p for p in cur.ex if p[0] != e)
                    if Subst({IDXSYM: e}).any(cur.tmpl) == x:
                        v = Arr(cur.n, cur.lo, cur.hi, cur.tmpl, ex, cur.kind)
                    else:
                        S.imprecise('array elements overwritten in a loop')
                        v = Arr(cur.n, cur.lo, cur.hi, Top('overwritten'), ex, cur.kind)
                continue
            pre = cur.tmpl
            tv = absorb(S, x, m, e, pre)
            if tv is None:
                continue
            if cur.tmpl is None:
                v = Arr(cur.n, e, add(e, 1), tv, tuple(p for p in cur.ex if p[0] != e), cur.kind)
            else:
                j = Joiner(S, S)
                j.iv = {}
                tm = j.tmpl(cur.tmpl, tv)
                v = Arr(cur.n, cur.lo, add(e, 1), tm, tuple(p for p in cur.ex if p[0] != e), cur.kind)
        if v.ex:
            ex = []
            ch = False
            for e, x in v.ex:
                ov = dict(old.ex).get(e) if type(old) is Arr else None
                y = _fold_val(I, S, x, ov, k, oid)
                ch = ch or y is not x
                ex.append((e, y))
            if ch:
                v = Arr(v.n, v.lo, v.hi, v.tmpl, tuple(ex), v.kind)
        return v
    if t is Rec:
        d = None
        for f, x in v.f.items():
            ov = old.f.get(f) if type(old) is Rec else None
            if type(ov) is Str and not ov.p and isinstance(f, str) and f.startswith('!'):
                continue        # ghost texts start afresh, they are not appended to
            y = _fold_val(I, S, x, ov, k, oid)
            if y is not x:
                if d is None:
                    d = dict(v.f)
                d[f] = y
        return v if d is None else Rec(v.cls, d)
    if t is Str and type(old) is Str:
        return fold_str(S, v, old, k)
    if t is CBuf and type(old) is CBuf and v.txt is not None and old.txt is not None:
        s = fold_str(S, v.txt, old.txt, k)
        return v if s is v.txt else CBuf(v.cap, s, v.term)
    return v


def fold_str(S, v, old, k):
    ks = k.t[0][0]
    if v == old:
        if v.p and isinstance(v.p[-1], Rep) and v.p[-1].hi == k:
            r = v.p[-1]
            return Str(v.p[:-1] + (Rep(r.alts | {EMPTY}, r.lo, add(k, 1)),))
        return v
    n = len(old.p)
    x = None
    if v.p[:n] == old.p:
        x = v.p[n:]; base = old.p
    elif n and isinstance(old.p[-1], bytes) and len(v.p) >= n and v.p[:n - 1] == old.p[:n - 1] and isinstance(v.p[n - 1], bytes) and v.p[n - 1].startswith(old.p[-1]):
        x = (v.p[n - 1][len(old.p[-1]):],) + v.p[n:]; base = old.p
    if x is None:
        return v
    if any(isinstance(p, Seg) and p.src[0] == 'rep' for p in x):
        return v        # consecutive parts of one reply
    X = Subst({ks: IDX}).any(mkstr(x))
    if base and isinstance(base[-1], Rep) and base[-1].hi == k:
        r = base[-1]
        return Str(base[:-1] + (Rep(r.alts | {X}, r.lo, add(k, 1)),))
    if ks not in deps_of(mkstr(x)):
        # same text appended every time: still a repetition
        return Str(base + (Rep(frozenset((X,)), k, add(k, 1)),))
    return Str(base + (Rep(frozenset((X,)), k, add(k, 1)),))


def absorb(S, x, m, e, pre, depth=0):
    """value x of element e expressed over $i; heap objects owned by the element become families"""
    t = type(x)
    if t is Ptr:
        o = x.obj
        if o is not None and o[0] == 'h':
            ob = S.h.get(o)
            if ob is None:
                return Subst(m).any(x)
            if not (deps_of(x) or True):
                return x
            # shared objects (not created per element) stay as they are
            if refcount(S, o) > 1:
                return Subst(m).any(x) if pre is None or pre == x else Top('shared element')
            if ob.kind not in ('new', 'new[]') or depth > 6:
                return Subst(m).any(x)
            fid = None
            pv = None
            if type(pre) is Ptr and pre.obj[0] == 'F':
                fid = pre.obj[1]
                F = S.h.get(('F', fid))
                if F is not None:
                    pv = F.val
            nv = absorb(S, ob.val, m, e, pv, depth + 1)
            if nv is None:
                return None
            if fid is not None and ('F', fid) in S.h:
                F = S.h[('F', fid)]
                if F.hi == e or S.eq(F.hi, e):
                    if ob.status != F.status or ob.kind != F.kind:
                        return None
                    j = Joiner(S, S); j.iv = {}
                    tv = j.tmpl(F.val, nv)
                    S.h[('F', fid)] = F.with_(val=tv, hi=add(e, 1))
                else:
                    return Top('family gap')
            else:
                fid = S.new_id('F')[1]
                S.h[('F', fid)] = Obj(ob.kind, nv, ob.status, ob.site, True, e, add(e, 1), 0, 0, (), ob.ty)
            del S.h[o]
            return Ptr(('F', fid, IDX), x.path, x.arr, Subst(m).num(x.idx))
        return Subst(m).any(x)
    if t is Rec:
        d = {}
        for f, y in x.f.items():
            py = pre.f.get(f) if type(pre) is Rec else None
            z = absorb(S, y, m, e, py, depth + 1)
            if z is None:
                return None
            d[f] = z
        return Rec(x.cls, d)
    if t is Arr or t is CBuf or t is Str or t is Lin:
        return Subst(m).any(x)
    return x


def refcount(S, oid):
    n = 0
    for o in S.h.values():
        n += _cnt(o.val, oid)
    return n


def _cnt(v, oid):
    t = type(v)
    if t is Ptr:
        return 1 if v.obj == oid else 0
    if t is Rec:
        return sum(_cnt(x, oid) for x in v.f.values())
    if t is Arr:
        return sum(_cnt(x, oid) for k, x in v.ex) + (_cnt(v.tmpl, oid) if v.tmpl is not None else 0)
    return 0


def _fold_fam(S, oid, k):
    """exceptions of a family (members freed one by one) become the freed range"""
    o = S.h[oid]
    ex = list(o.ex)
    for item in list(ex):
        e, status, val = item
        if status != 'freed':
            continue
        if o.flo == o.fhi and not isinstance(o.flo, Lin) and o.flo == 0 and o.fhi == 0:
            o = o.with_(flo=e, fhi=add(e, 1)); ex.remove(item)
        elif o.fhi == e or S.eq(o.fhi, e):
            o = o.with_(fhi=add(e, 1)); ex.remove(item)
        elif S.eq(o.flo, add(e, 1)):
            o = o.with_(flo=e); ex.remove(item)
    o = o.with_(ex=tuple(ex))
    S.h[oid] = o


# ---------------------------------------------------------------- identical states
def fingerprint(st):
    """a text which is equal for two states that differ in the names of anonymous symbols and heap objects only"""
    t = st.copy()
    t.canon(None)
    num = {}
    out = []

    def symt(s):
        if SYMS[s].key is not None:
            if s not in num:
                num[s] = 'i%d' % s
                iv = t.cons.get(s)
                if iv is not None and iv != SYMS[s].nat:
                    out.append('[%s%s]' % (num[s], iv))
            return num[s]
        if s not in num:
            num[s] = 'f%d' % len(num)
            out.append('[%s%s%s]' % (num[s], t.cons.get(s) or SYMS[s].nat, SYMS[s].approx is not None and bool(SYMS[s].approx)))
        return num[s]

    def ser(v):
        k = type(v)
        if k is Lin:
            return 'L%s(%s)' % (v.c, ','.join(['%s*%s' % (symt(s), c) for s, c in v.t]))
        if k is Str:
            return 'S<%s>' % ','.join([ser(p) for p in v.p])
        if k is bytes:
            return repr(v)
        if k is Seg:
            return 'g(%s,%s,%s)' % (ser(v.src), ser(v.off), ser(v.n))
        if k is Rep:
            return 'r(%s,%s,%s)' % (','.join([ser(a) for a in v.alts]), ser(v.lo), ser(v.hi))
        if k is Unk:
            u = v.id
            if u is not None and (not isinstance(u, int) or u >= 0):
                if ('u', u) not in num:
                    num[('u', u)] = 'u%d' % len(num)
                u = num[('u', u)]
            return 'U(%s,%s,%s,%s)' % (u, ser(v.n), sorted(map(str, v.tags)), v.cs)
        if k is Ptr:
            return 'P(%s,%s,%s,%s)' % (ser(v.obj), ser(v.path), v.arr, ser(v.idx))
        if k is Rec:
            return 'R%s{%s}' % (v.cls, ','.join(['%s=%s' % (f, ser(v.f[f])) for f in sorted(v.f, key=str)]))
        if k is Arr:
            return 'A(%s,%s,%s,%s,%s,%s)' % (ser(v.n), ser(v.lo), ser(v.hi), ser(v.tmpl), ','.join([ser(a) + ':' + ser(b) for a, b in v.ex]), v.kind)
        if k is CBuf:
            return 'C(%s,%s,%s)' % (ser(v.cap), ser(v.txt), v.term)
        if k is tuple:
            return '(%s)' % ','.join([ser(x) for x in v])
        if k is frozenset:
            return 'F%s' % sorted(map(str, v))
        if k is Disc:
            return 'D' + ser(v.v)
        if k is Top:
            return 'T'
        return repr(v)

    for k in sorted(t.h, key=str):
        o = t.h[k]
        x = ''
        if o.fam:
            x = ser((o.lo, o.hi, o.flo, o.fhi)) + ''.join([ser(a) + str(b) + ser(c) for a, b, c in o.ex])
        out.append('%s/%s/%s/%s/%s;' % (k, o.kind, o.status, ser(o.val), x))
    out.append('%s %s %s %s %s' % (t.depth, t.stack, ser(tuple(t.cl)) if t.cl else '', ser(t.exc) if t.exc is not None else None, t.approx is not None))
    fs = []
    for f in t.facts:
        if all(s in num or SYMS[s].key is not None for s, c in f.t):
            fs.append(ser(f))
    out.append('|'.join(sorted(fs)))
    fingerprint.last = out
    return hash(''.join(out)), len(out)
