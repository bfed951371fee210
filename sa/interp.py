"""Abstract interpreter over the exported syntax trees: computes, for every program point reached from a harness, an
over-approximation of the machine states.  No code is run and no solver is used: values are linear expressions with
interval sets, texts with symbolic segments, and a heap of objects; states of one control point are merged by shape and
loops are iterated to a fixpoint with widening."""
import os
import sys
from .dom import *
from .state import *
from .state import _fold_fam

sys.setrecursionlimit(30000)
NPOS = (1 << 64) - 1


class Undecided(Exception):
    """the abstract machine met a construct it has no model for on this path"""


INTERNAL = (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError)
DEBUG = bool(os.environ.get('SA_DEBUG'))


class Budget(Exception):
    pass


class Alarm:
    __slots__ = ('rule', 'msg', 'fn', 'file', 'line', 'stack', 'trace', 'extra')

    def __init__(self, rule, msg, fn, file, line, stack, trace, extra=None):
        self.rule = rule; self.msg = msg; self.fn = fn; self.file = file; self.line = line; self.stack = stack; self.trace = trace
        self.extra = extra

    def ident(self):
        return (self.rule, self.fn, self.line, self.extra)


N, B, C, R, X = 'N', 'B', 'C', 'R', 'X'

STRCLS = {'std::basic_string'}
SSCLS = {'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream'}
VECCLS = {'std::vector', 'std::initializer_list', 'std::array', 'std::deque', 'std::list'}
EXC_BASE = {'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error',
            'std::domain_error': 'std::logic_error', 'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
            'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception',
            'std::ios_base::failure': 'std::runtime_error', 'std::regex_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error'}


class Interp:
    UNROLL = 48
    MAXSTATES = 400

    def __init__(self, P, models, ghost=None):
        self.P = P
        self.models = models
        self.g = ghost
        self.alarms = {}
        self.undecided = {}
        self.fnset = set()
        self.calls = 0
        self.stmts = 0
        self.obligations = {}
        self.sites = set()
        self.suppress = 0
        self.caps = {}
        self.ev_t = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('e_')}
        self.ex_t = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('s_')}
        self.maxdepth = 60
        self.budget = 3000000
        self.tables = {}
        self.memo = None; self.memo_dbg = None; self.memo_cls = (); self.path = []; self.memo_hits = 0
        self.overrides = {}          # function key -> python model replacing a repo function
        self.stop_rules = ()
        self.rules_off = set()
        self.leak_on = True
        self.nopts = set()

    # ------------------------------------------------------------ reporting
    def where(self, st):
        k = st.stack[-1] if st.stack else None
        f = self.P.funcs.get(k)
        return (f['q'], f['file']) if f else ('?', '?')

    def alarm(self, st, rule, msg, n=None, vals=(), extra=None):
        """a rule is violated in this state; `vals` are the values the judgement used"""
        line = n.get('l') if isinstance(n, dict) else None
        fn, file = self.where(st)
        if self.suppress:
            return
        if extra is None and rule in ('oob-read', 'oob-write') and len(vals) == 2 and st.const(vals[1]) is None:
            extra = 'heap'
        if rule in self.rules_off:
            return
        if st.approx or not self.exact(st, *vals):
            self.undec(st, rule + ': ' + msg + (' [%s]' % st.approx if st.approx else ' [inexact]'), n)
            return
        a = Alarm(rule, msg, fn, file, line, tuple(self.P.funcs[k]['q'] if k in self.P.funcs else k for k in st.stack), st.notes(), extra)
        if a.ident() not in self.alarms:
            self.alarms[a.ident()] = a
            if rule in self.stop_rules and extra != 'heap':
                self.g.enough()

    def undec(self, st, why, n=None):
        if self.suppress:
            return
        fn, file = self.where(st)
        line = n.get('l') if isinstance(n, dict) else None
        self.undecided[(fn, line, why)] = self.undecided.get((fn, line, why), 0) + 1

    def ob(self, rule, n=1):
        """count an obligation checked"""
        self.obligations[rule] = self.obligations.get(rule, 0) + n

    def exact(self, st, *vals):
        for v in vals:
            if isinstance(v, Top):
                return False
            for s in deps_of(v):
                if SYMS[s].approx:
                    return False
        return True

    def leak(self, st, objs):
        if not self.leak_on:
            return
        for o in objs:
            if o.site is None:
                continue
            k = ('leak', o.site)
            fn, line, what = o.site
            if self.suppress or 'leak' in self.rules_off:
                return
            f = self.P.funcs.get(fn)
            if st.approx:
                self.undec(st, 'leak of %s allocated at %s:%s' % (what, fn, line))
                continue
            a = Alarm('leak', '%s allocated here is never released (last reference lost in %s)' % (what, self.where(st)[0]),
                      f['q'] if f else str(fn), f['file'] if f else '?', line, tuple(self.P.funcs[k]['q'] if k in self.P.funcs else k for k in st.stack), st.notes())
            self.alarms.setdefault(a.ident(), a)

    # ------------------------------------------------------------ memory
    def getpath(self, st, v, path, n):
        for i, p in enumerate(path):
            if isinstance(p, str):
                if isinstance(v, Rec):
                    if p in v.f:
                        v = v.f[p]
                    else:
                        return None
                else:
                    return None if not isinstance(v, Top) else v
            else:
                if isinstance(v, Arr):
                    v = self.arr_get(st, v, p[1], n)
                    if v is None:
                        return None
                elif isinstance(v, Top):
                    return v
                else:
                    return None
        return v

    def arr_get(self, st, a, idx, n):
        self.chk_idx(st, a.n, idx, n, 'oob-read')
        for k, v in a.ex:
            if k == idx or st.eq(k, idx):
                return v
        maybe = [k for k, v in a.ex if not st.ne(k, idx)]
        if a.tmpl is not None and st.ge0(sub(idx, a.lo)) and st.gt0(sub(a.hi, idx)):
            if not maybe:
                return Subst({IDXSYM: idx}).any(a.tmpl)
            return Top('aliasing index')
        if a.tmpl is None and not a.ex:
            return UNDEF
        if a.tmpl is not None and not a.ex:
            if st.gt0(sub(a.lo, idx)) or st.ge0(sub(idx, a.hi)):
                return UNDEF
            if a.lo == 0 and (a.hi == a.n or st.eq(a.hi, a.n)):
                return Subst({IDXSYM: idx}).any(a.tmpl)      # out of range was reported already
            return Top('element maybe unset')
        if not maybe and a.tmpl is None:
            return UNDEF
        if a.tmpl is None and len(a.ex) <= 12 and all(isinstance(k, int) for k, v in a.ex):
            # join of the candidates
            vs = [v for k, v in a.ex if k in maybe]
            r = vs[0]
            for v in vs[1:]:
                if v != r:
                    r = self.soft_join(r, v)
            return r
        vs = [v for k, v in a.ex] + ([a.tmpl] if a.tmpl is not None else [])
        if vs and all(isinstance(v, Str) for v in vs):
            tg, cs = frozenset(), frozenset()
            for v in vs:
                tg |= str_tags(v); cs |= str_cs(v)
            return Str((new_unk(compact_tags(tg), None, cs),))
        return Top('element unknown')

    def soft_join(self, a, b):
        if a == b:
            return a
        if isinstance(a, Str) and isinstance(b, Str):
            return Str((new_unk(str_tags(a) | str_tags(b), None, str_cs(a) | str_cs(b)),))
        return Top('choice')

    def chk_idx(self, st, n, idx, node, rule, incl=False):
        """obligation 0 <= idx < n"""
        self.ob('bounds')
        if isinstance(n, Top) or isinstance(idx, Top):
            self.undec(st, rule + ': unknown index or size', node)
            return
        ok1 = st.ge0(idx); ok2 = st.ge0(sub(n, idx)) if incl else st.gt0(sub(n, idx))
        if not ok1:
            t = st.copy()
            if t.assume_ge0(sub(-1, idx)):
                self.alarm(t, rule, 'index %s can be negative' % show_num(idx), node, (idx,))
        if not ok2:
            t = st.copy()
            if t.assume_ge0(sub(idx, add(n, 1) if incl else n)):
                self.alarm(t, rule, 'index %s can exceed the %s elements' % (show_num(idx), show_num(n)), node, (idx, n))

    def base(self, st, p, n, what='access'):
        """the object p points into (checked); None if the access is impossible to follow"""
        o = p.obj
        if o[0] == 'F':
            f = st.h.get(('F', o[1]))
            if f is None:
                self.alarm(st, 'dangling', '%s through a dangling pointer' % what, n)
                return None
            idx = o[2]
            for k, s_, v in f.ex:
                if k == idx or st.eq(k, idx):
                    if s_ != 'alive':
                        self.alarm(st, 'uaf', '%s after the object was released' % what, n, (idx,))
                        return None
                    return f.with_(val=v, fam=False, ex=())
            # freed range?
            if not (isinstance(f.flo, int) and isinstance(f.fhi, int) and f.flo >= f.fhi):
                if st.ge0(sub(idx, f.flo)) and st.gt0(sub(f.fhi, idx)):
                    self.alarm(st, 'uaf', '%s after the object was released' % what, n, (idx,))
                    return None
                if not (st.gt0(sub(f.flo, idx)) or st.ge0(sub(idx, f.fhi))):
                    t = st.copy()
                    if t.assume_ge0(sub(idx, f.flo)) and t.assume_ge0(sub(sub(f.fhi, idx), 1)):
                        self.alarm(t, 'uaf', '%s to an object that may have been released' % what, n, (idx, f.flo, f.fhi))
            if f.status != 'alive':
                self.alarm(st, 'uaf', '%s after the object was released' % what, n)
                return None
            return f.with_(val=Subst({IDXSYM: idx}).any(f.val), fam=False, ex=())
        if o[0] == 'L':
            return Obj('lit', o[1])
        ob = st.h.get(o)
        if ob is None:
            self.alarm(st, 'dangling', '%s through a pointer to an object whose lifetime has ended' % what, n)
            return None
        if ob.status != 'alive':
            self.alarm(st, 'uaf', '%s after the object was released' % what, n)
            return None
        return ob

    def kill(self, st, why):
        """this path cannot continue"""
        raise Infeasible(why)

    def deref(self, st, p, n, what='access'):
        if p is NULL or (isinstance(p, int) and p == 0):
            self.ob('null')
            self.alarm(st, 'null', '%s through a null pointer' % what, n)
            raise Infeasible('null')
        if p is UNDEF:
            self.alarm(st, 'uninit', '%s through an uninitialised pointer' % what, n)
            raise Infeasible('undef')
        if not isinstance(p, Ptr):
            st.imprecise('pointer unknown: %r' % (p,))
            return None
        self.ob('null')
        return p

    def load(self, st, p, n, t=None):
        p = self.deref(st, p, n, 'read')
        if p is None:
            return Top('unknown pointer')
        ob = self.base(st, p, n, 'read')
        if ob is None:
            raise Infeasible('bad read')
        v = self.getpath(st, ob.val, p.path, n)
        if p.arr:
            if v is UNDEF or v is None:
                v = None
            else:
                v = self.elem(st, v, p.idx, n)
        if v is None:
            return self.unknown(t, 'field')
        if v is UNDEF:
            if ob.kind == 'ext':
                return self.unknown(t, 'ext')
            self.ob('uninit')
            self.alarm(st, 'uninit', 'read of an uninitialised value', n)
            return Top('uninitialised')
        return v

    def shape_array(self, s, p, t, n):
        """an array in a structure of the system gets its size when it is first used"""
        ob = s.h.get(p.obj)
        if ob is None or ob.status != 'alive':
            return
        try:
            v = self.getpath(s, ob.val, p.path[:-1], n)
            if (isinstance(v, Rec) and v.cls not in self.P.records or v is UNDEF and len(p.path) == 1) and (v is UNDEF or v.f.get(p.path[-1], UNDEF) is UNDEF):
                self.store(s, p, Arr(t.n, 0, t.n, Top('field')), n)
        except Infeasible:
            pass

    def unknown(self, t, why):
        if t is not None and t.rng():
            lo, hi = t.rng()
            return fresh('?' + why, lo, hi)
        return Top(why)

    def elem(self, st, v, idx, n):
        if isinstance(v, Arr):
            return self.arr_get(st, v, idx, n)
        if isinstance(v, Str):
            return self.char_at(st, v, idx, n, True)
        if isinstance(v, CBuf):
            self.chk_idx(st, v.cap, idx, n, 'oob-read')
            if v.txt is None:
                return UNDEF
            L = slen(v.txt)
            if v.term and st.eq(idx, L):
                return 0
            if st.gt0(sub(L, idx)):
                return self.char_at(st, v.txt, idx, n, False)
            if not v.term and st.ge0(sub(idx, L)):
                return UNDEF
            return fresh('ch', -128, 127)
        if isinstance(v, Top):
            return Top('elem of top', v.tags)
        if isinstance(idx, int) and idx == 0:
            return v
        return Top('element of %r' % (v,))

    def char_at(self, st, s, idx, n, nul):
        L = slen(s)
        self.chk_idx(st, add(L, 1) if nul else L, idx, n, 'oob-read')
        if nul and st.eq(idx, L):
            return 0
        pos = 0
        for p in s.p:
            e = add(pos, plen(p))
            if st.gt0(sub(e, idx)) and st.ge0(sub(idx, pos)):
                if isinstance(p, bytes):
                    o = sub(idx, pos)
                    if isinstance(o, int):
                        c = p[o]
                        return c - 256 if c > 127 else c
                    break
                if isinstance(p, Seg):
                    cs = part_cs(p)
                    iv = cs_iv(cs)
                    return sym(('chr', p.src, add(p.off, sub(idx, pos))), iv, None)
                break
            if not st.ge0(sub(idx, e)):
                break
            pos = e
        iv = iv_union(cs_iv(str_cs(s)), ((0, 0),) if nul else ())
        c = fresh_iv('ch', iv)
        tg = frozenset(x for x in str_tags(s) if not (isinstance(x, tuple) and x[0] == 'lit'))
        if tg:
            CHTAGS[c.t[0][0]] = tg
        return c

    def store(self, st, p, val, n, t=None):
        p = self.deref(st, p, n, 'write')
        if p is None:
            return
        if p.obj[0] == 'L':
            self.alarm(st, 'lit-write', 'write into a string literal', n)
            raise Infeasible('lit write')
        ob = self.base(st, p, n, 'write')
        if ob is None:
            raise Infeasible('bad write')
        nv = self.setpath(st, ob.val, p.path, p, val, n)
        self.putobj(st, p.obj, nv, n)

    def putobj(self, st, oid, nv, n):
        if oid[0] == 'F':
            f = st.h[('F', oid[1])]
            ex = [e for e in f.ex if not (e[0] == oid[2] or st.eq(e[0], oid[2]))]
            ex.append((oid[2], 'alive', nv))
            st.h[('F', oid[1])] = f.with_(ex=tuple(ex))
            if len(ex) > 6:
                st.imprecise('many modified members')
            return
        st.h[oid] = st.h[oid].with_(val=nv)

    def setpath(self, st, v, path, p, val, n, i=0):
        if i == len(path):
            if not p.arr:
                return val
            return self.set_elem(st, v, p.idx, val, n)
        s = path[i]
        if isinstance(s, str):
            if isinstance(v, Rec):
                return v.with_(s, self.setpath(st, v.f.get(s, UNDEF), path, p, val, n, i + 1))
            if isinstance(v, Top):
                return v
            if v is UNDEF:
                return Rec(None, {s: self.setpath(st, UNDEF, path, p, val, n, i + 1)})
            return v
        if isinstance(v, Arr):
            cur = self.arr_get(st, v, s[1], n)
            nv = self.setpath(st, UNDEF if cur is None else cur, path, p, val, n, i + 1)
            return self.arr_set(st, v, s[1], nv, n, False)
        return v

    def arr_set(self, st, a, idx, val, n, chk=True):
        if chk:
            self.chk_idx(st, a.n, idx, n, 'oob-write')
        ex = []
        hit = False
        for k, v in a.ex:
            if k == idx or st.eq(k, idx):
                hit = True
                ex.append((k, val))
            elif st.ne(k, idx):
                ex.append((k, v))
            else:
                ex.append((k, v if v == val else Top('maybe overwritten')))
        if not hit:
            ex.append((idx, val))
        if len(ex) > 40:
            return Arr(a.n, 0, 0, None, (), a.kind) if False else Arr(a.n, 0, a.n, Top('array'), (), a.kind)
        # element overriding the template range
        if a.tmpl is not None and not hit and not (st.gt0(sub(a.lo, idx)) or st.ge0(sub(idx, a.hi))):
            pass
        return Arr(a.n, a.lo, a.hi, a.tmpl, tuple(ex), a.kind)

    def set_elem(self, st, v, idx, val, n):
        if isinstance(v, Arr):
            return self.arr_set(st, v, idx, val, n)
        if isinstance(v, Str):
            L = slen(v)
            self.chk_idx(st, L, idx, n, 'oob-write', incl=isinstance(val, int) and val == 0)
            if st.eq(idx, L):
                return v
            a, b, c = self.cut3(st, v, idx, add(idx, 1))
            return mkstr(a.p + self.chr_str(st, val).p + c.p)
        if isinstance(v, CBuf):
            return self.cbuf_set(st, v, idx, val, n)
        if isinstance(v, Top) or v is UNDEF or v is None:
            return v
        if isinstance(idx, int) and idx == 0:
            return val
        return Top('element store')

    def chr_str(self, st, val):
        c = st.const(val) if is_num(val) else None
        if c is not None:
            return lit(bytes([c & 255]))
        if isinstance(val, Lin):
            s = single(val)
            if s and s[1] == 1 and s[2] == 0:
                k = SYMS[s[0]].key
                if k and k[0] == 'chr':
                    return Str((Seg(k[1], k[2], 1),))
                cs = frozenset((x & 255) for a, b in st.iv(s[0]) for x in range(max(a, -128), min(b, 255) + 1))
                return Str((Unk(('c', s[0]), 1, CHTAGS.get(s[0], frozenset()), cs),))
        return Str((new_unk(getattr(val, 'tags', frozenset()), 1),))

    def cbuf_set(self, st, b, idx, val, n):
        self.chk_idx(st, b.cap, idx, n, 'oob-write')
        if b.txt is None:
            L = 0; txt = EMPTY
        else:
            txt = b.txt; L = slen(txt)
        zero = is_num(val) and st.const(val) == 0
        nz = is_num(val) and not any(a <= 0 <= c for a, c in st.vals(val))
        if zero:
            if st.eq(idx, L):
                return CBuf(b.cap, txt, True if b.term != 'Z' else 'Z')
            if st.gt0(sub(L, idx)):
                a, c = self.cut(st, txt, idx)
                return CBuf(b.cap, a, True)
            if b.term:
                return b             # after the terminator: text unchanged
            if st.gt0(sub(idx, L)):
                # gap of unknown bytes before the terminator
                gap = new_unk(frozenset(('uninit',)), fresh('gap', 0, MAXLEN, True))
                return CBuf(b.cap, mkstr(txt.p + (gap,)), True)
            return CBuf(b.cap, Str((new_unk(str_tags(txt), fresh('len?', 0, MAXLEN, True)),)), True)
        if st.eq(idx, L):
            c = self.chr_str(st, val)
            if b.term == 'Z':
                if st.gt0(sub(b.cap, add(L, 1))):
                    return CBuf(b.cap, concat(txt, c), 'Z')
                return CBuf(b.cap, concat(txt, c), st.gt0(sub(b.cap, add(L, 1))))
            return CBuf(b.cap, concat(txt, c), False)
        if st.gt0(sub(L, idx)):
            a, x, c = self.cut3(st, txt, idx, add(idx, 1))
            return CBuf(b.cap, mkstr(a.p + self.chr_str(st, val).p + c.p), b.term)
        return CBuf(b.cap, Str((new_unk(str_tags(txt) | getattr(val, 'tags', frozenset()), fresh('len?', 0, MAXLEN, True)),)), b.term)

    # ------------------------------------------------------------ texts
    def cut(self, st, s, off):
        """s = left (off chars) + right"""
        if isinstance(off, int) and off == 0:
            return EMPTY, s
        pos = 0
        left = []
        for i, p in enumerate(s.p):
            if st.eq(off, pos):
                return mkstr(left), mkstr(s.p[i:])
            e = add(pos, plen(p))
            if st.ge0(sub(off, e)):
                left.append(p); pos = e
                continue
            d = sub(off, pos)
            if st.ge0(d) and st.ge0(sub(e, off)):
                if isinstance(p, bytes):
                    if isinstance(d, int):
                        return mkstr(left + [p[:d]]), mkstr((p[d:],) + s.p[i + 1:])
                elif isinstance(p, Seg):
                    return mkstr(left + [Seg(p.src, p.off, d)]), mkstr((Seg(p.src, add(p.off, d), sub(p.n, d)),) + s.p[i + 1:])
                src = ('cat', Str((p,)))
                return mkstr(left + [Seg(src, 0, d)]), mkstr((Seg(src, d, sub(plen(p), d)),) + s.p[i + 1:])
            # undecided position: keep the decided prefix, slice the rest as one text
            rest = Str(s.p[i:])
            src = ('cat', rest)
            return mkstr(left + [Seg(src, 0, d)]), mkstr([Seg(src, d, sub(slen(rest), d))])
        return s, EMPTY

    def cut3(self, st, s, a, b):
        x, y = self.cut(st, s, a)
        y, z = self.cut(st, y, sub(b, a))
        return x, y, z

    def norm(self, st, s):
        """re-assemble slices whose extent has become provably complete"""
        ch = False
        out = []
        for p in s.p:
            if isinstance(p, Seg):
                if not isinstance(p.n, int):
                    if st.const(p.n) == 0:
                        ch = True; continue
                    if not st.ge0(p.n):
                        st.assume_ge0(p.n)      # lengths are never negative
                if p.src[0] == 'cat' and st.eq(p.off, 0):
                    L = slen(p.src[1])
                    if p.n != L and st.eq(p.n, L):
                        out.extend(p.src[1].p); ch = True; continue
            out.append(p)
        return self.norm(st, mkstr(out)) if ch else s

    def cstr(self, st, p, n, what='string read'):
        """text of the C string at p; raises Infeasible on definite misuse"""
        p = self.deref(st, p, n, what)
        if p is None:
            return Str((new_unk(),))
        if isinstance(p, Ptr) and not p.arr and p.obj[0] != 'L':
            # pointer to a single char object
            ob = self.base(st, p, n, what)
            if ob is None:
                raise Infeasible('bad read')
            v = self.getpath(st, ob.val, p.path, n)
            if isinstance(v, int) and v == 0:
                return EMPTY
            if isinstance(v, CBuf) or isinstance(v, Str):
                return self.buf_text(st, v, 0, n)
            st.imprecise('string through a pointer to one object')
            return Str((new_unk(getattr(v, 'tags', frozenset())),))
        ob = self.base(st, p, n, what)
        if ob is None:
            raise Infeasible('bad read')
        v = self.getpath(st, ob.val, p.path, n)
        return self.buf_text(st, v, p.idx, n)

    def buf_text(self, st, v, idx, n):
        self.ob('terminated')
        if isinstance(v, Str):
            L = slen(v)
            if not (isinstance(idx, int) and idx == 0):
                self.chk_idx(st, L, idx, n, 'oob-read', incl=True)
            return self.until_nul(st, self.cut(st, v, idx)[1])
        if isinstance(v, CBuf):
            if v.txt is None:
                self.alarm(st, 'uninit', 'string read from a buffer nothing was written to', n)
                return Str((new_unk(frozenset(('uninit',))),))
            if not (isinstance(idx, int) and idx == 0):
                self.chk_idx(st, slen(v.txt), idx, n, 'oob-read', incl=True)
            if not v.term:
                # a NUL inside the text also ends it
                if not self.has_nul(v.txt):
                    self.alarm(st, 'unterminated', 'string read from a buffer without a terminating null character', n, (v.txt,))
            t = self.cut(st, v.txt, idx)[1]
            return self.until_nul(st, t)
        if isinstance(v, Arr):
            if v.ex and all(isinstance(k, int) for k, x in v.ex):
                return Str((new_unk(),))
        if isinstance(v, Top):
            return Str((new_unk(v.tags),))
        if v is UNDEF or v is None:
            self.alarm(st, 'uninit', 'string read from uninitialised memory', n)
        return Str((new_unk(),))

    def has_nul(self, s):
        return any(isinstance(p, bytes) and 0 in p for p in s.p)

    def until_nul(self, st, s):
        out = []
        for p in s.p:
            if isinstance(p, bytes) and 0 in p:
                out.append(p[:p.index(0)])
                return mkstr(out)
            out.append(p)
        # a server stream may contain a NUL: only matters for lengths, treated as the environment's choice
        return s

    def new_lit(self, b):
        return Ptr(('L', lit(b)), (), True, 0)

    # ------------------------------------------------------------ default values
    def undef(self, t):
        if t is None:
            return UNDEF
        if t.k == 'rec':
            q = t.q
            if q in STRCLS:
                return EMPTY
            if t.repo or q in self.P.records and self.P.records[q].get('fields') and t.repo:
                return self.undef_rec(q)
            return Rec(q, {})
        if t.k == 'arr':
            if t.to.ch:
                return CBuf(t.n, None, False)
            if t.to.k == 'rec' and t.to.repo:
                return Arr(t.n, 0, t.n, self.undef(t.to), (), 'arr')
            return Arr(t.n, 0, 0, None, (), 'arr')
        return UNDEF

    def undef_rec(self, q):
        f = {}
        for b in self.P.bases(q):
            r = self.undef_rec(b) if b in self.P.records else Rec(b, {})
            f.update(r.f)
        for x in self.P.fields(q):
            f[q + '::' + x['n']] = self.undef(x['t'])
        return Rec(q, f)

    def zero(self, t):
        if t is None:
            return 0
        if t.k in ('ptr', 'nullptr', 'mptr'):
            return NULL
        if t.k == 'int':
            return False if t.bool else 0
        if t.k == 'float':
            return Flt(0.0)
        if t.k == 'rec':
            q = t.q
            if q in STRCLS:
                return EMPTY
            if q in VECCLS:
                return Arr(0, kind='vec')
            if t.repo:
                return self.zero_rec(q)
            return Rec(q, {'$zero': True})
        if t.k == 'arr':
            if t.to.ch:
                return CBuf(t.n, EMPTY, 'Z')
            return Arr(t.n, 0, t.n, self.zero(t.to), (), 'arr')
        return 0

    def zero_rec(self, q):
        f = {}
        for b in self.P.bases(q):
            f.update(self.zero_rec(b).f)
        for x in self.P.fields(q):
            f[q + '::' + x['n']] = self.zero(x['t'])
        return Rec(q, f)

    # ------------------------------------------------------------ variables
    def var(self, st, vid):
        d = st.depth
        o = ('v', d, vid)
        if o in st.h:
            return o
        # captured variable: look at the closure of the current lambda
        c = st.h.get(('clo', d))
        if c is not None:
            clo = c.val
            if isinstance(clo, Ptr):
                r = self.base(st, clo, None)
                if r is not None:
                    v = self.getpath(st, r.val, clo.path, None)
                    if isinstance(v, Rec) and ('cap', vid) in v.f:
                        x = v.f[('cap', vid)]
                        if v.f.get(('byref', vid)):
                            return x            # a Ptr
                        return Ptr(clo.obj, clo.path + ((('cap', vid)),) if False else clo.path, False, 0), ('cap', vid)
        return None

    # ------------------------------------------------------------ evaluation
    def ev(self, n, st):
        """list of (state, value)"""
        if st.exc is not None:
            return [(st, None)]
        cv = n.get('cv')
        k = n['k']
        if cv is not None:
            t = n['t']
            if t.bool:
                cv = bool(cv)
            return [(st, cv)]
        if 'cvs' in n:
            return [(st, int(n['cvs']))]
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        m = self.ev_t.get(k)
        if m is None:
            st.imprecise('unsupported expression ' + k)
            self.undec(st, 'unsupported expression ' + k, n)
            return [(st, Top('unsupported'))]
        d, stk = st.depth, st.stack
        try:
            return m(n, st)
        except Infeasible:
            return []
        except INTERNAL as e:
            if DEBUG:
                raise
            st.depth, st.stack = d, stk
            why = 'analysis error (%s)' % type(e).__name__
            st.imprecise(why)
            self.undec(st, why, n)
            return [(st, Top('unsupported'))]

    def evs(self, nodes, st):
        """evaluate nodes left to right: [(st, [vals])]"""
        out = [(st, [])]
        for n in nodes:
            nx = []
            for s, vs in out:
                if s.exc is not None:
                    nx.append((s, vs)); continue
                for s2, v in self.ev(n, s):
                    nx.append((s2, vs + [v]))
            out = nx
        return out

    def ev1(self, n, st, f):
        out = []
        for s, v in self.ev(n, st):
            if s.exc is not None:
                out.append((s, None))
            else:
                try:
                    out.extend(f(s, v))
                except Infeasible:
                    pass
        return out

    def e_int(self, n, st):
        return [(st, fresh('int'))]

    def e_float(self, n, st):
        return [(st, Flt(n.get('v')))]

    def e_null(self, n, st):
        return [(st, NULL)]

    def e_str(self, n, st):
        return [(st, Ptr(('L', lit(bytes.fromhex(n.get('x', '')))), ()))]

    def e_nop(self, n, st):
        return [(st, VOID)]

    def e_unsup(self, n, st):
        st.imprecise('unsupported expression ' + str(n.get('c')))
        self.undec(st, 'unsupported expression ' + str(n.get('c')), n)
        return [(st, Top('unsupported'))]

    def e_zero(self, n, st):
        if n['t'].k == 'rec':
            oid = self.temp(st, n)
            st.h[oid] = Obj('tmp', self.zero(n['t']))
            return [(st, Ptr(oid))]
        return [(st, self.zero(n['t']))]

    def e_this(self, n, st):
        o = st.h.get(('this', st.depth))
        if o is not None:
            return [(st, o.val)]
        c = st.h.get(('clo', st.depth))
        if c is not None:
            r = self.base(st, c.val, n)
            if r is None:
                raise Infeasible('clo')
            v = self.getpath(st, r.val, c.val.path, n)
            if isinstance(v, Rec) and ('cap', 'this') in v.f:
                return [(st, v.f[('cap', 'this')])]
        st.imprecise('this unknown')
        return [(st, Top('this'))]

    def e_ref(self, n, st):
        dk = n['dk']
        if dk == 'fn':
            return [(st, Fn(n['fn'], n['q']))]
        if dk == 'var':
            d = st.depth
            vid = n['d']
            oid = ('v', d, vid)
            o = st.h.get(oid)
            if o is not None:
                if o.kind == 'ref':
                    return [(st, o.val)]
                return [(st, Ptr(oid))]
            c = st.h.get(('clo', d))
            if c is not None:
                r = self.base(st, c.val, n)
                if r is None:
                    raise Infeasible('closure')
                v = self.getpath(st, r.val, c.val.path, n)
                if isinstance(v, Rec) and ('cap', vid) in v.f:
                    if v.f.get(('byref', vid)):
                        return [(st, v.f[('cap', vid)])]
                    return [(st, Ptr(c.val.obj, c.val.path + ('cap:' + vid,)))] if ('cap:' + vid) in v.f else [(st, v.f[('cap', vid)])]
            st.imprecise('variable %s not in scope' % n.get('n'))
            return [(st, Top('var'))]
        if dk == 'glob':
            return [(st, self.glob(st, n))]
        if dk == 'bind':
            o = st.h.get(('v', st.depth, n['d']))
            if o is not None:
                return [(st, o.val if o.kind == 'ref' else Ptr(('v', st.depth, n['d'])))]
            if n.get('b'):
                return self.ev(n['b'], st)
        st.imprecise('reference kind')
        return [(st, Top('ref'))]

    def glob(self, st, n):
        gid = ('g', n['d'])
        if gid not in st.h:
            g = self.P.globals.get(n['d'])
            val = None
            if g is not None:
                if 'cv' in g:
                    val = g['cv']
                elif g.get('init') is not None and (g.get('const') or g.get('t') is not None and g['t'].const):
                    val = self.ginit(g)
            if val is None:
                val = Top('global ' + n['n'])
            st.h[gid] = Obj('glob', val)
        o = st.h[gid]
        if isinstance(o.val, Ptr) and n.get('isref'):
            return o.val
        return Ptr(gid)

    def ginit(self, g):
        s = State()
        s.depth = 999
        s.h[('r', 999)] = Obj('tmp', self.undef(g['t']))
        try:
            outs = self.ev_into(g['init'], Ptr(('r', 999)), s, g['t'])
            if len(outs) == 1 and outs[0].exc is None:
                v = outs[0].h[('r', 999)].val
                if not any(t[0] not in ('L',) for t in ptr_targets(v)):
                    return v
        except Exception:
            pass
        return None

    def e_mem(self, n, st):
        b = n['b']
        f = n['cls'] + '::' + n['f'] if n.get('cls') else n['f']
        def k(s, v):
            if v is NULL or v is UNDEF:
                self.deref(s, v, n, 'member access')
            if not isinstance(v, Ptr):
                s.imprecise('member of unknown object')
                return [(s, Top('mem'))]
            self.ob('null')
            p = v
            if p.arr:
                p = Ptr(p.obj, p.path + (('e', p.idx),))
            if n.get('anon'):
                return [(s, p)]
            q = Ptr(p.obj, p.path + (f,))
            if n.get('isref'):
                return [(s, self.load(s, q, n))]
            return [(s, q)]
        return self.ev1(b, st, k)

    def e_mat(self, n, st):
        e = n['e']
        t = n['t'] or e['t']
        oid = (('x' if n.get('ext') else 't'), st.depth, self.nid(n))
        if e['t'] is not None and e['t'].k == 'rec' or e['t'] is not None and e['t'].k == 'arr':
            st.h[oid] = Obj('tmp', self.undef(e['t']))
            out = []
            for s in self.ev_into(e, Ptr(oid), st, e['t']):
                if s.exc is None:
                    self.track(s, oid, e['t'])
                out.append((s, Ptr(oid)))
            return out
        out = []
        for s, v in self.ev(e, st):
            if s.exc is None:
                s.h[oid] = Obj('tmp', v)
            out.append((s, Ptr(oid)))
        return out

    _nid = {}

    def nid(self, n):
        i = self._nid.get(id(n))
        if i is None:
            i = len(self._nid) + 1
            self._nid[id(n)] = i
        return i

    def temp(self, st, n):
        return ('t', st.depth, self.nid(n))

    def needs_dtor(self, t):
        while t is not None and t.k == 'arr':
            t = t.to
        if t is None or t.k != 'rec':
            return False
        if t.repo:
            return True
        return t.q in ('std::unique_ptr', 'std::shared_ptr') or (t.q in ('std::vector', 'std::pair') and any(self.needs_dtor(x) for x in t.ta or [] if not isinstance(x, (int, str))))

    def track(self, st, oid, t):
        if self.needs_dtor(t):
            st.cl = st.cl + ((oid, t.s, None),)

    def e_clean(self, n, st):
        mark = len(st.cl)
        out = []
        for s, v in self.ev(n['e'], st):
            out.extend(self.clean_temps(s, v, mark, n))
        return out

    def clean_temps(self, st, v, mark, n):
        """destroy temporaries pushed since mark (full expression end); extended ones stay"""
        todo = [c for c in st.cl[mark:] if c[0][0] == 't']
        if not todo:
            return [(st, v)]
        keep = tuple(c for c in st.cl[mark:] if c[0][0] != 't')
        st.cl = st.cl[:mark] + keep
        cur = [(st, v)]
        for oid, ts, _ in reversed(todo):
            nx = []
            for s, x in cur:
                exc = s.exc; s.exc = None
                for s2 in self.destroy(s, Ptr(oid), self.P.types[ts], n):
                    if s2.exc is None:
                        s2.exc = exc
                    nx.append((s2, x))
            cur = nx
        return cur

    def drop_temps(self, st):
        d = st.depth
        dead = [k for k in st.h if k[0] == 't' and k[1] == d]
        if dead:
            live = {c[0] for c in st.cl}
            for k in dead:
                if k not in live:
                    del st.h[k]

    def e_cast(self, n, st):
        ck = n['ck']
        e = n['e']
        t = n['t']
        if ck == 'LValueToRValue':
            et = t
            if et is not None and et.k == 'rec':
                return self.ev(e, st)
            return self.ev1(e, st, lambda s, p: [(s, self.load(s, p, n, t))])
        if ck == 'ArrayToPointerDecay':
            at = e.get('t')
            def k(s, p):
                if isinstance(p, Ptr):
                    if p.arr:
                        return [(s, Ptr(p.obj, p.path + (('e', p.idx),), True, 0))]
                    if p.path and at is not None and at.k == 'arr' and isinstance(at.n, int) and at.to is not None and at.to.k == 'int' and not at.to.ch:
                        self.shape_array(s, p, at, n)
                    return [(s, Ptr(p.obj, p.path, True, 0))]
                return [(s, p)]
            return self.ev1(e, st, k)
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            return self.ev1(e, st, lambda s, v: self.conv(s, v, e['t'], t, n))
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return self.ev1(e, st, lambda s, v: self.truth(s, v, n))
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return self.ev1(e, st, lambda s, v: [(s, NULL)])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'LValueBitCast', 'Dynamic',
                  'DerivedToBaseMemberPointer', 'BaseToDerivedMemberPointer', 'NoOp', 'ReinterpretMemberPointer', 'AtomicToNonAtomic'):
            return self.ev(e, st)
        if ck == 'ToVoid':
            return self.ev1(e, st, lambda s, v: [(s, VOID)])
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToBoolean'):
            return self.ev1(e, st, lambda s, v: [(s, Flt(v) if is_num(v) else v)])
        if ck == 'FloatingToIntegral':
            def k2(s, v):
                if isinstance(v, Flt) and is_num(v.v):
                    return [(s, v.v)]
                if isinstance(v, Flt) and isinstance(v.v, float):
                    return [(s, int(v.v))]
                return [(s, self.unknown(t, 'float'))]
            return self.ev1(e, st, k2)
        if ck == 'PointerToIntegral':
            return self.ev1(e, st, lambda s, v: [(s, 0 if v is NULL else fresh('ptrint', 1, (1 << 63)))])
        if ck == 'IntegralToPointer':
            return self.ev1(e, st, lambda s, v: [(s, NULL if v == 0 else Top('int to pointer'))])
        st.imprecise('cast ' + ck)
        return self.ev1(e, st, lambda s, v: [(s, Top('cast ' + ck))])

    def conv(self, s, v, ft, t, n):
        if isinstance(v, Top):
            return [(s, v)]
        if isinstance(v, Ptr) or v is NULL:
            if t.bool:
                return [(s, v is not NULL)]
            return [(s, v)]
        if not is_num(v):
            return [(s, v)]
        if t.bool:
            return self.truth(s, v, n)
        r = t.rng()
        if r is None:
            return [(s, v)]
        if isinstance(v, int):
            v = int(v)
            if r[0] <= v <= r[1]:
                return [(s, v)]
            w = t.w
            v &= (1 << w) - 1
            if not t.u and v >= 1 << (w - 1):
                v -= 1 << w
            return [(s, v)]
        lo, hi = s.bounds(v)
        if lo >= r[0] and hi <= r[1]:
            return [(s, v)]
        vs = s.vals(v)
        if s.ge0(sub(v, r[0])) and s.ge0(sub(r[1], v)):
            return [(s, v)]
        # char -> unsigned char and the like: piecewise shift
        if lo >= -(1 << (t.w - 1)) and hi <= (1 << t.w) - 1:
            out = []
            a = s.copy()
            if a.assume_ge0(sub(v, r[0])) and a.assume_ge0(sub(r[1], v)):
                out.append((a, v))
            a = s.copy()
            if t.u:
                if a.assume_ge0(sub(-1, v)):
                    out.append((a, add(v, 1 << t.w)))
            else:
                if a.assume_ge0(sub(v, r[1] + 1)):
                    out.append((a, sub(v, 1 << t.w)))
            return out
        return [(s, sym(('cast', t.w, t.u, v), r[0], r[1]))]

    def truth(self, s, v, n=None):
        """[(state, bool)]"""
        if isinstance(v, bool):
            return [(s, v)]
        if isinstance(v, int):
            return [(s, v != 0)]
        if v is NULL:
            return [(s, False)]
        if isinstance(v, (Ptr, Fn, MFn)):
            return [(s, True)]
        if isinstance(v, Lin):
            out = []
            a = s.copy()
            if a.assume_ne0(v):
                out.append((a, True))
            if s.assume_eq0(v):
                out.append((s, False))
            return out
        if v is UNDEF:
            self.alarm(s, 'uninit', 'decision on an uninitialised value', n)
        why = v.why if isinstance(v, Top) else repr(v)
        s.imprecise('unknown condition (%s)' % why)
        self.undec(s, 'unknown condition (%s)' % why, n)
        return [(s, True), (s.copy(), False)]

    def cond(self, n, st):
        out = []
        for s, v in self.ev(n, st):
            if s.exc is not None:
                out.append((s, None))
            else:
                out.extend(self.truth(s, v, n))
        return out

    def e_un(self, n, st):
        op = n['op']
        e = n['e']
        if op == '&':
            return self.ev1(e, st, lambda s, p: [(s, p)])
        if op == '*':
            def k(s, p):
                if p is NULL or p is UNDEF:
                    self.deref(s, p, n)
                if isinstance(p, Fn):
                    return [(s, p)]
                return [(s, p)]
            return self.ev1(e, st, k)
        if op == '!':
            out = []
            for s, v in self.cond(e, st):
                out.append((s, None if s.exc is not None else (not v)))
            return out
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            def k(s, p):
                v = self.load(s, p, n, e['t'])
                nv = self.ptr_add(s, v, d, n) if not is_num(v) else self.wrap(s, add(v, d), e['t'], n)
                self.store(s, p, nv, n)
                if n.get('post'):
                    return [(s, v)]
                return [(s, p if n.get('g') else nv)]
            return self.ev1(e, st, k)
        if op == '-':
            return self.ev1(e, st, lambda s, v: [(s, self.wrap(s, neg(v), n['t'], n) if is_num(v) else v)])
        if op == '+':
            return self.ev(e, st)
        if op == '~':
            return self.ev1(e, st, lambda s, v: [(s, self.wrap(s, sub(-1, v), n['t'], n) if is_num(v) else Top('~'))])
        if op == '__extension__':
            return self.ev(e, st)
        st.imprecise('unary ' + op)
        return self.ev1(e, st, lambda s, v: [(s, Top('unary'))])

    def wrap(self, s, v, t, n):
        """arithmetic result in type t"""
        if not is_num(v) or t is None or t.k != 'int':
            return v
        lo, hi = t.rng()
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            if t.u:
                return v & hi
            return v
        a, b = s.bounds(v)
        if a >= lo and b <= hi:
            return v
        if t.u:
            if (a >= lo or s.ge0(sub(v, lo))) and (b <= hi or s.ge0(sub(hi, v)) or b <= MAXLEN * 64 or b >= INF // 2):
                return v
            if s.gt0(neg(v)):            # definitely negative: wraps once
                return add(v, hi + 1)
            return fresh('wrap', lo, hi, True)
        return v

    def ptr_add(self, s, p, d, n):
        if isinstance(p, Ptr):
            if p.arr:
                return Ptr(p.obj, p.path, True, add(p.idx, d))
            if isinstance(d, int) and d == 0:
                return p
            # &object + 1: treat the object as a one-element array
            if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'e':
                return Ptr(p.obj, p.path[:-1], True, add(p.path[-1][1], d))
            return Ptr(p.obj, p.path, True, d)
        if p is NULL and isinstance(d, int) and d == 0:
            return p
        if p is NULL:
            if is_num(d) and s.const(d) == 0:
                return p
            return Top('arithmetic on null')
        return Top('pointer arithmetic') if not isinstance(p, Top) else p

    def e_bin(self, n, st):
        op = n['op']
        a, b = n['a'], n['b']
        if op == '&&' or op == '||':
            out = []
            for s, v in self.cond(a, st):
                if s.exc is not None:
                    out.append((s, None))
                elif v == (op == '||'):
                    out.append((s, v))
                else:
                    out.extend(self.cond(b, s))
            return out
        if op == ',':
            out = []
            for s, v in self.ev(a, st):
                out.extend(self.ev(b, s) if s.exc is None else [(s, None)])
            return out
        if op == '=':
            out = []
            for s, v in self.ev(b, st):
                if s.exc is not None:
                    out.append((s, None)); continue
                for s2, p in self.ev(a, s):
                    if s2.exc is None:
                        try:
                            if isinstance(v, Ptr) and n['t'].k == 'rec':
                                v = self.load(s2, v, n)
                            self.store(s2, p, v, n)
                        except Infeasible:
                            continue
                    out.append((s2, p if n.get('g') else v))
            return out
        out = []
        for s, vs in self.evs([a, b], st):
            if s.exc is not None:
                out.append((s, None)); continue
            try:
                out.extend(self.binop(s, op, vs[0], vs[1], n, a['t'], b['t']))
            except Infeasible:
                pass
        return out

    def e_cassign(self, n, st):
        op = n['op']
        out = []
        for s, vs in self.evs([n['b'], n['a']], st):
            if s.exc is not None:
                out.append((s, None)); continue
            b, p = vs
            try:
                v = self.load(s, p, n, n['a']['t'])
                for s2, r in self.binop(s, op, v, b, n, n['ct'] if not n['a']['t'].is_ptr() else n['a']['t'], n['b']['t'], True):
                    t = n['a']['t']
                    if is_num(r) and t.k == 'int':
                        for s3, r3 in self.conv(s2, r, n['ct'], t, n):
                            self.store(s3, p, r3, n)
                            out.append((s3, p))
                    else:
                        self.store(s2, p, r, n)
                        out.append((s2, p))
            except Infeasible:
                pass
        return out

    def binop(self, s, op, a, b, n, ta, tb, cas=False):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(s, op, a, b, n)
        if op == '<=>':
            s.imprecise('spaceship')
            return [(s, Top('<=>'))]
        t = ta if cas else n['t']
        if isinstance(a, (Ptr,)) or (a is NULL and t is not None and t.is_ptr()):
            if op == '+':
                return [(s, self.ptr_add(s, a, b, n))]
            if op == '-':
                if is_num(b):
                    return [(s, self.ptr_add(s, a, neg(b), n))]
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.path == b.path:
                    return [(s, sub(a.idx, b.idx))]
                return [(s, Top('pointer difference'))]
        if isinstance(b, Ptr) and op == '+':
            return [(s, self.ptr_add(s, b, a, n))]
        if a is UNDEF or b is UNDEF:
            self.alarm(s, 'uninit', 'arithmetic on an uninitialised value', n)
            return [(s, Top('undef'))]
        if isinstance(a, Flt) or isinstance(b, Flt):
            return [(s, Flt(None))]
        if not is_num(a) or not is_num(b):
            return [(s, Top('arith', getattr(a, 'tags', frozenset()) | getattr(b, 'tags', frozenset())))]
        if op == '+':
            return [(s, self.wrap(s, add(a, b), t, n))]
        if op == '-':
            return [(s, self.wrap(s, sub(a, b), t, n))]
        ca, cb = s.const(a), s.const(b)
        if op == '*':
            if ca is not None:
                return [(s, self.wrap(s, mulc(b, ca), t, n))]
            if cb is not None:
                return [(s, self.wrap(s, mulc(a, cb), t, n))]
        if op in ('/', '%'):
            self.ob('div')
            if cb == 0 or (cb is None and any(x <= 0 <= y for x, y in s.vals(b))):
                t0 = s.copy()
                if t0.assume_eq0(b):
                    self.alarm(t0, 'div0', 'division by zero', n, (b,))
                if cb == 0:
                    return []
        if ca is not None and cb is not None:
            try:
                if op == '/':
                    r = abs(ca) // abs(cb)
                    r = r if (ca >= 0) == (cb >= 0) else -r
                elif op == '%':
                    r = abs(ca) % abs(cb)
                    r = r if ca >= 0 else -r
                elif op == '<<':
                    r = ca << cb
                elif op == '>>':
                    r = ca >> cb
                elif op == '&':
                    r = ca & cb
                elif op == '|':
                    r = ca | cb
                elif op == '^':
                    r = ca ^ cb
                elif op == '*':
                    r = ca * cb
                else:
                    return [(s, Top('op ' + op))]
                return [(s, self.wrap(s, r, t, n))]
            except Exception:
                return [(s, Top('arith'))]
        la, ha = s.bounds(a); lb, hb = s.bounds(b)
        lo, hi = t.rng() if t is not None and t.rng() else (-INF, INF)
        if op == '/' and cb and cb > 0 and la >= 0:
            lo, hi = la // cb, (ha // cb if ha < INF else hi)
            if isinstance(a, Lin) and all(k % cb == 0 for _, k in a.t) and a.c % cb == 0:
                return [(s, Lin(a.c // cb, tuple((x, k // cb) for x, k in a.t)))]
        elif op == '%' and cb and cb > 0:
            lo, hi = (0 if la >= 0 else -cb + 1), cb - 1
        elif op == '>>' and cb is not None and la >= 0:
            lo, hi = la >> cb, (ha >> cb if ha < INF else hi)
        elif op == '&' and (cb is not None and cb >= 0 or ca is not None and ca >= 0):
            lo, hi = 0, (cb if cb is not None and cb >= 0 else ca)
            if la >= 0 and ha < INF:
                hi = min(hi, ha) if cb is not None else min(hi, hb)
        elif op == '*' and la >= 0 and lb >= 0:
            lo = la * lb
        elif op == '<<' and la >= 0 and cb is not None:
            if ha << cb <= hi:
                return [(s, mulc(a, 1 << cb))]
            lo = 0
        elif op == '|' and la >= 0 and lb >= 0:
            lo = max(la, lb)
        return [(s, sym(('op', op, t.s if t is not None else '', a, b), max(lo, -INF), min(hi, INF)))]

    def compare(self, s, op, a, b, n):
        if op == '!=':
            return [(x, not v) for x, v in self.compare(s, '==', a, b, n)]
        if op == '>':
            return self.compare(s, '<', b, a, n)
        if op == '>=':
            return [(x, not v) for x, v in self.compare(s, '<', a, b, n)]
        if op == '<=':
            return [(x, not v) for x, v in self.compare(s, '<', b, a, n)]
        if a is UNDEF or b is UNDEF:
            self.alarm(s, 'uninit', 'comparison of an uninitialised value', n)
            return [(s, True), (s.copy(), False)]
        if is_num(a) and is_num(b):
            d = sub(a, b)
            if op == '==':
                if isinstance(d, int):
                    return [(s, d == 0)]
                out = []
                if s.ne(a, b):
                    return [(s, False)]
                if s.eq(a, b):
                    return [(s, True)]
                x = s.copy()
                if x.assume_eq0(d):
                    out.append((x, True))
                if s.assume_ne0(d):
                    out.append((s, False))
                return out
            # a < b
            if isinstance(d, int):
                return [(s, d < 0)]
            if s.gt0(neg(d)):
                return [(s, True)]
            if s.ge0(d):
                return [(s, False)]
            x = s.copy()
            out = []
            if x.assume_ge0(sub(neg(d), 1)):
                out.append((x, True))
            if s.assume_ge0(d):
                out.append((s, False))
            return out
        pa = isinstance(a, Ptr); pb = isinstance(b, Ptr)
        an = a is NULL or (isinstance(a, int) and not isinstance(a, bool) and a == 0)
        bn = b is NULL or (isinstance(b, int) and not isinstance(b, bool) and b == 0)
        if op == '==':
            if an and bn:
                return [(s, True)]
            if (pa and bn) or (an and pb) or (isinstance(a, (Fn, MFn)) and bn) or (isinstance(b, (Fn, MFn)) and an):
                return [(s, False)]
            if isinstance(a, (Fn, MFn)) and isinstance(b, (Fn, MFn)):
                return [(s, a == b)]
            if pa and pb:
                if a.obj == b.obj and a.path == b.path and a.arr == b.arr:
                    return self.compare(s, '==', a.idx, b.idx, n)
                if a.obj[0] == 'F' and b.obj[0] == 'F' and a.obj[1] == b.obj[1] and a.path == b.path:
                    return self.compare(s, '==', a.obj[2], b.obj[2], n)
                if a.obj != b.obj:
                    if a.obj[0] == 'L' and b.obj[0] == 'L':
                        return [(s, True), (s.copy(), False)]
                    return [(s, False)]
                # same object, different shape: first element / object
                if a.path == b.path and a.arr != b.arr:
                    i = a.idx if a.arr else b.idx
                    return self.compare(s, '==', i, 0, n)
                ea = self.as_elem(a); eb = self.as_elem(b)
                if ea and eb and ea[0] == eb[0]:
                    return self.compare(s, '==', ea[1], eb[1], n)
                return [(s, False)]
        elif pa and pb and a.obj == b.obj and a.path == b.path and a.arr and b.arr:
            return self.compare(s, '<', a.idx, b.idx, n)
        if isinstance(a, Flt) or isinstance(b, Flt):
            return [(s, True), (s.copy(), False)]
        why = 'comparison %s %s %s' % (type(a).__name__, op, type(b).__name__)
        s.imprecise(why)
        self.undec(s, why, n)
        return [(s, True), (s.copy(), False)]

    def as_elem(self, p):
        if p.arr:
            return (p.path, p.idx)
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'e':
            return (p.path[:-1], p.path[-1][1])
        return None

    def e_cond(self, n, st):
        out = []
        for s, v in self.cond(n['c'], st):
            if s.exc is not None:
                out.append((s, None)); continue
            out.extend(self.ev(n['a'] if v else n['b'], s))
        return out

    def e_elvis(self, n, st):
        out = []
        for s, v in self.ev(n['a'], st):
            if s.exc is not None:
                out.append((s, None)); continue
            for s2, tr in self.truth(s, v, n):
                if tr:
                    out.append((s2, v))
                else:
                    out.extend(self.ev(n['b'], s2))
        return out

    def e_sub(self, n, st):
        out = []
        for s, vs in self.evs([n['b'], n['i']], st):
            if s.exc is not None:
                out.append((s, None)); continue
            b, i = vs
            if b is NULL or b is UNDEF:
                try:
                    self.deref(s, b, n)
                except Infeasible:
                    continue
            if isinstance(b, Ptr):
                if not b.arr and b.path and isinstance(b.path[-1], tuple):
                    p = self.ptr_add(s, b, i, n)
                elif b.arr:
                    p = Ptr(b.obj, b.path, True, add(b.idx, i) if is_num(i) else i)
                else:
                    p = Ptr(b.obj, b.path, False) if isinstance(i, int) and i == 0 else Ptr(b.obj, b.path, True, i)
                if isinstance(p, Ptr) and not is_num(p.idx):
                    s.imprecise('unknown index')
                    out.append((s, Top('index'))); continue
                out.append((s, p))
            else:
                s.imprecise('subscript of unknown')
                out.append((s, Top('sub')))
        return out

    def e_memfn(self, n, st):
        return [(st, MFn(n['fn'], n['q'], bool(n.get('virt'))))]

    def e_throw(self, n, st):
        e = n.get('e')
        if e is None:
            # rethrow: the current exception object
            o = st.h.get(('exc', st.depth))
            st.exc = o.val if o is not None else Rec('?', {})
            return [(st, None)]
        out = []
        t = n['tt']
        for s, v in self.ev(e, st):
            if s.exc is None:
                s.exc = Rec(t.q if t is not None and t.k == 'rec' else (t.s if t is not None else '?'), {})
                s.note('throws %s at line %s' % (s.exc.cls, n.get('l')))
            out.append((s, None))
        return out

    def e_lambda(self, n, st):
        oid = self.temp(st, n)
        out = []
        for s in self.ev_into(n, Ptr(oid), st, n['t']):
            out.append((s, Ptr(oid)))
        return out

    def e_stdil(self, n, st):
        return self.ev_tmp(n, st)

    def e_ilist(self, n, st):
        if n['t'] is not None and n['t'].k in ('rec', 'arr'):
            return self.ev_tmp(n, st)
        if n['e']:
            return self.ev(n['e'][0], st)
        return [(st, self.zero(n['t']))]

    def e_ctor(self, n, st):
        return self.ev_tmp(n, st)

    def e_stmtexpr(self, n, st):
        out = []
        for k, s in self.exec(n['s'], st):
            out.append((s, VOID))
        return out

    def ev_tmp(self, n, st):
        oid = self.temp(st, n)
        st.h[oid] = Obj('tmp', self.undef(n['t']))
        out = []
        for s in self.ev_into(n, Ptr(oid), st, n['t']):
            if s.exc is None:
                self.track(s, oid, n['t'])
            out.append((s, Ptr(oid)))
        return out

    # ------------------------------------------------------------ record initialisation
    def ev_into(self, n, loc, st, t):
        """evaluate a record/array prvalue directly into loc -> states"""
        if st.exc is not None:
            return [st]
        k = n['k']
        try:
            if k == 'ctor':
                return self.construct(n, loc, st)
            if k == 'clean':
                mark = len(st.cl)
                out = []
                for s in self.ev_into(n['e'], loc, st, t):
                    out.extend(x for x, _ in self.clean_temps(s, None, mark, n))
                return out
            if k == 'cond':
                out = []
                for s, v in self.cond(n['c'], st):
                    if s.exc is not None:
                        out.append(s)
                    else:
                        out.extend(self.ev_into(n['a'] if v else n['b'], loc, s, t))
                return out
            if k == 'ilist':
                return self.init_list(n, loc, st, t)
            if k == 'stdil':
                e = n['e']
                while e['k'] in ('mat', 'cast', 'clean'):
                    e = e['e']
                return self.init_list(e, loc, st, e['t'], 'vec')
            if k == 'zero':
                self.store(st, loc, self.zero(n['t']), n)
                return [st]
            if k == 'lambda':
                return self.make_closure(n, loc, st)
            if k == 'str' and t is not None and t.k == 'arr':
                b = bytes.fromhex(n.get('x', ''))
                self.store(st, loc, CBuf(t.n, lit(b), 'Z' if t.n > len(b) else False), n)
                return [st]
            if k in ('call', 'mcall', 'pmcall'):
                return self.call_into(n, loc, st)
            if k == 'bin' and n['op'] == ',':
                out = []
                for s, v in self.ev(n['a'], st):
                    out.extend(self.ev_into(n['b'], loc, s, t))
                return out
            # fall back: evaluate, copy the value
            out = []
            for s, v in self.ev(n, st):
                if s.exc is None:
                    try:
                        if isinstance(v, Ptr) and t is not None and t.k in ('rec', 'arr'):
                            v = self.load(s, v, n)
                        self.store(s, loc, v, n)
                    except Infeasible:
                        continue
                out.append(s)
            return out
        except Infeasible:
            return []

    def make_closure(self, n, loc, st):
        cur = [(st, {})]
        for c in n['caps']:
            nx = []
            for s, f in cur:
                if c['v'] == 'this':
                    for s2, v in self.e_this(n, s):
                        g = dict(f); g[('cap', 'this')] = v
                        nx.append((s2, g))
                    continue
                if c.get('byref') or True:
                    r = self.e_ref({'k': 'ref', 'dk': 'var', 'd': c['v'], 'n': c['v'], 'l': n['l']}, s) if c.get('byref') else None
                if c.get('byref'):
                    for s2, p in r:
                        g = dict(f); g[('cap', c['v'])] = p; g[('byref', c['v'])] = True
                        nx.append((s2, g))
                else:
                    fld = 'cap:' + c['v']
                    # by value: the initialiser is evaluated into a field of the closure
                    if c.get('init') is not None:
                        t = c['init']['t']
                        if t.k in ('rec', 'arr'):
                            tid = ('x', s.depth, (self.nid(n), c['v']))
                            s.h[tid] = Obj('tmp', self.undef(t))
                            for s2 in self.ev_into(c['init'], Ptr(tid), s, t):
                                g = dict(f); g[('cap', c['v'])] = Ptr(tid); g[('byref', c['v'])] = True
                                nx.append((s2, g))
                        else:
                            for s2, v in self.ev(c['init'], s):
                                g = dict(f); g[('cap', c['v'])] = True; g[fld] = v
                                nx.append((s2, g))
            cur = nx
        out = []
        for s, f in cur:
            f = dict(f); f['$key'] = n['key']; f['$ops'] = Fn(tuple(n['ops']))
            o = Rec('$lambda', f)
            if loc.obj not in s.h:
                s.h[loc.obj] = Obj('tmp', UNDEF)
            self.store(s, loc, o, n)
            out.append(s)
        return out

    def init_list(self, n, loc, st, t, kind=None):
        t = t or n['t']
        els = n['e']
        if t.k == 'arr' or kind == 'vec':
            cnt = t.n if t.k == 'arr' and t.n is not None else len(els)
            if t.k == 'arr' and t.to.ch:
                if els and els[0]['k'] == 'str':
                    return self.ev_into(els[0], loc, st, t)
                if not els:
                    self.store(st, loc, CBuf(cnt, EMPTY, 'Z'), n)
                    return [st]
                out = []
                for s, vs in self.evs(els, st):
                    if s.exc is None:
                        b = CBuf(cnt, EMPTY, 'Z')
                        for i, v in enumerate(vs):
                            b = self.cbuf_set(s, b, i, v, n)
                        self.store(s, loc, b, n)
                    out.append(s)
                return out
            tt = t.to if t.k == 'arr' else None
            fill = self.zero(tt) if (tt is not None and len(els) < cnt) else UNDEF
            base = Arr(cnt, 0, cnt if len(els) < cnt and fill is not UNDEF else 0, fill if len(els) < cnt and fill is not UNDEF else None, (), kind or 'arr')
            self.store(st, loc, base, n)
            cur = [st]
            for i, e in enumerate(els):
                nx = []
                p = Ptr(loc.obj, loc.path + (('e', i),))
                for s in cur:
                    if e['t'] is not None and e['t'].k in ('rec', 'arr'):
                        a = self.load(s, loc, n)
                        self.store(s, loc, Arr(a.n, a.lo, a.hi, a.tmpl, a.ex + ((i, self.undef(e['t'])),), a.kind), n)
                        nx.extend(self.ev_into(e, p, s, e['t']))
                    else:
                        for s2, v in self.ev(e, s):
                            if s2.exc is None:
                                a = self.load(s2, loc, n)
                                self.store(s2, loc, Arr(a.n, a.lo, a.hi, a.tmpl, a.ex + ((i, v),), a.kind), n)
                            nx.append(s2)
                cur = nx
            return cur
        if t.k == 'rec':
            fl = n.get('fields') or []
            if t.q == 'std::array' and els:
                return self.init_list(els[0], loc, st, els[0]['t'], 'vec') if els[0]['k'] == 'ilist' else self.ev_into(els[0], loc, st, els[0]['t'])
            if len(els) == 1 and els[0]['t'] is not None and els[0]['t'].k == 'rec' and els[0]['t'].q == t.q:
                return self.ev_into(els[0], loc, st, els[0]['t'])
            cur = [st]
            self.store(st, loc, Rec(t.q, {}) if not t.repo else self.undef_rec(t.q), n)
            for e, f in zip(els, fl):
                nx = []
                for s in cur:
                    if 'base' in f:
                        nx.extend(self.ev_into(e, loc, s, e['t'])); continue
                    p = Ptr(loc.obj, loc.path + (f['cls'] + '::' + f['f'],))
                    nx.extend(self.init_at(e, p, s, f['t']))
                cur = nx
            return cur
        out = []
        for s, v in (self.ev(els[0], st) if els else [(st, self.zero(t))]):
            if s.exc is None:
                self.store(s, loc, v, n)
            out.append(s)
        return out

    def init_at(self, e, p, st, t):
        """initialise the sub-object at p of type t with expression e"""
        if t is not None and t.k == 'ref':
            out = []
            for s, v in self.ev(e, st):
                if s.exc is None:
                    self.store(s, p, v, e)
                out.append(s)
            return out
        if t is not None and t.k in ('rec', 'arr'):
            self.store(st, p, self.undef(t), e)
            return self.ev_into(e, p, st, t)
        out = []
        for s, v in self.ev(e, st):
            if s.exc is None:
                try:
                    self.store(s, p, v, e)
                except Infeasible:
                    continue
            out.append(s)
        return out

    def construct(self, n, loc, st):
        """constructor call into loc"""
        cls = n['cls']
        t = n['t']
        if t is not None and t.k == 'arr':
            # array of records, each constructed the same way
            et = t.to
            cnt = t.n
            return self.construct_array(n, loc, st, et, cnt)
        args = n['args']
        if (n.get('copy') or n.get('move')) and len(args) == 1 and not n.get('repo') and cls not in STRCLS and cls not in self.models.CTORS:
            # memberwise copy of a library record
            out = []
            for s, v in self.ev(args[0], st):
                if s.exc is None:
                    try:
                        x = self.load(s, v, n)
                        if isinstance(x, Rec):
                            x = Rec(x.cls if x.cls == '$lambda' else cls, dict(x.f))
                        self.store(s, loc, x, n)
                    except Infeasible:
                        continue
                out.append(s)
            return out
        f = self.P.funcs.get(n['fn'])
        if n.get('repo') or (f is not None) or cls in self.P.records and self.is_repo_cls(cls):
            out = []
            for s, vs in self.eval_args(n, args, n['pt'], st):
                if s.exc is not None:
                    out.append(s); continue
                out.extend(self.call_ctor(s, n['fn'], cls, loc, vs, n))
            return out
        m = self.models.CTORS.get(cls)
        out = []
        for s, vs in self.eval_args(n, args, n['pt'], st):
            if s.exc is not None:
                out.append(s); continue
            try:
                if m is None:
                    if not args:
                        self.store(s, loc, Rec(cls, {}), n)
                        out.append(s); continue
                    s.imprecise('constructor of ' + cls)
                    self.undec(s, 'no model for constructor of ' + cls, n)
                    self.store(s, loc, Rec(cls, {}), n)
                    out.append(s); continue
                for s2, v in m(self, s, n, vs):
                    if s2.exc is None:
                        self.store(s2, loc, v, n)
                    out.append(s2)
            except Infeasible:
                pass
        return out

    def is_repo_cls(self, cls):
        r = self.P.records.get(cls)
        return bool(r and any(m['key'] in self.P.funcs for m in r['methods']) and cls.split('::')[0] not in ('std', '__gnu_cxx'))

    def construct_array(self, n, loc, st, et, cnt):
        if et.k == 'rec' and not et.repo and et.q not in STRCLS:
            self.store(st, loc, Arr(cnt, 0, cnt, Rec(et.q, {}), (), 'arr'), n)
            return [st]
        if et.k == 'rec' and et.q in STRCLS and not n['args']:
            self.store(st, loc, Arr(cnt, 0, cnt, EMPTY, (), 'arr'), n)
            return [st]
        if isinstance(cnt, int) and cnt <= 8:
            self.store(st, loc, Arr(cnt, 0, cnt, self.undef(et), (), 'arr'), n)
            cur = [st]
            n2 = dict(n); n2['t'] = et
            for i in range(cnt):
                cur = [x for s in cur for x in self.construct(n2, Ptr(loc.obj, loc.path + (('e', i),)), s)]
            return cur
        st.imprecise('array of objects')
        self.undec(st, 'array of constructed objects', n)
        self.store(st, loc, Arr(cnt, 0, cnt, Top('array element'), (), 'arr'), n)
        return [st]

    def eval_args(self, n, args, pt, st):
        """evaluate call arguments: scalars to values, references/records to locations.  [(st,[vals])]"""
        return self.evs(args, st)

    # ------------------------------------------------------------ calls
    def e_call(self, n, st):
        return self.call_val(n, st)

    def e_mcall(self, n, st):
        return self.call_val(n, st)

    def e_pmcall(self, n, st):
        return self.call_val(n, st)

    def is_recval(self, n):
        t = n['t']
        return not n.get('g') and t is not None and t.k in ('rec', 'arr')

    def call_val(self, n, st):
        if self.is_recval(n):
            oid = self.temp(st, n)
            st.h[oid] = Obj('tmp', self.undef(n['t']))
            out = []
            for s in self.call_into(n, Ptr(oid), st):
                if s.exc is None:
                    self.track(s, oid, n['t'])
                out.append((s, Ptr(oid)))
            return out
        return self.do_call(n, st, None)

    def call_into(self, n, loc, st):
        out = []
        for s, v in self.do_call(n, st, loc):
            if s.exc is None and v is not VOID and v is not loc:
                # a model returned the value itself
                if v is None:
                    v = Top('call result')
                try:
                    self.store(s, loc, v, n)
                except Infeasible:
                    continue
            out.append(s)
        return out

    def do_call(self, n, st, loc):
        """perform the call; record results are stored at loc and loc is returned, models may return the value"""
        self.calls += 1
        k = n['k']
        if k == 'pmcall':
            out = []
            for s, vs in self.evs([n['obj'], n['ptr']] + n['args'], st):
                if s.exc is not None:
                    out.append((s, None)); continue
                try:
                    out.extend(self.pm_call(n, s, vs[0], vs[1], vs[2:], loc))
                except Infeasible:
                    pass
            return out
        if k == 'mcall':
            out = []
            nodes = [n['obj']] + n['args']
            if n.get('op') in ('=', '<<=', '+=') and False:
                nodes = nodes
            for s, vs in self.evs(nodes, st):
                if s.exc is not None:
                    out.append((s, None)); continue
                try:
                    out.extend(self.m_call(n, s, vs[0], vs[1:], loc))
                except Infeasible:
                    pass
            return out
        # free function
        if 'fn' not in n:
            out = []
            for s, vs in self.evs([n['callee']] + n['args'], st):
                if s.exc is not None:
                    out.append((s, None)); continue
                f = vs[0]
                if isinstance(f, Fn) and f.key in self.P.funcs and isinstance(f.key, str):
                    out.extend(self.invoke(s, f.key, None, vs[1:], n, loc))
                elif isinstance(f, MFn) and n['callee'].get('k') == 'pm':
                    out.extend(self.unmodelled(n, s, vs[1:], 'pm'))
                else:
                    out.extend(self.unmodelled(n, s, vs[1:], 'indirect call'))
            return out
        out = []
        for s, vs in self.evs(n['args'], st):
            if s.exc is not None:
                out.append((s, None)); continue
            try:
                out.extend(self.f_call(n, s, vs, loc))
            except Infeasible:
                pass
        return out

    def f_call(self, n, s, vs, loc):
        key = n['fn']
        if key in self.overrides:
            return self.overrides[key](self, s, n, None, vs, loc)
        if key in self.P.funcs and (self.P.funcs[key].get('body') is not None):
            return self.invoke(s, key, None, vs, n, loc)
        m = self.models.FUNCS.get(n['q'])
        if m is None and n.get('op'):
            m = self.models.OPS.get(n['op'])
        if m is None:
            return self.unmodelled(n, s, vs, n['q'])
        r = m(self, s, n, vs)
        if r is None:
            return self.unmodelled(n, s, vs, n['q'])
        return r

    def m_call(self, n, s, obj, vs, loc):
        key = n['fn']
        if n.get('arrow') and not isinstance(obj, Ptr):
            if obj is NULL or obj is UNDEF:
                self.deref(s, obj, n, 'method call')
        cls = n['cls']
        if key in self.overrides:
            return self.overrides[key](self, s, n, obj, vs, loc)
        if n.get('repo') or key in self.P.funcs:
            if obj is NULL or obj is UNDEF:
                self.deref(s, obj, n, 'method call')
            self.ob('null')
            if isinstance(obj, Top) or not isinstance(obj, (Ptr,)):
                s.imprecise('call on unknown object')
                return [(s, self.unknown(n['t'], 'call'))]
            f = self.P.funcs.get(key)
            if f is not None and f['kind'] == 'lambda':
                return self.call_closure(s, obj, vs, n, loc, key)
            if n.get('static'):
                return self.invoke(s, key, None, vs, n, loc)
            this = Ptr(obj.obj, obj.path + (('e', obj.idx),)) if obj.arr else obj
            if n.get('virt'):
                dyn = self.dyncls(s, this, n)
                if dyn is not None:
                    k2 = self.P.find_override(dyn, key)
                    if k2:
                        key = k2
            if key in self.overrides:
                return self.overrides[key](self, s, n, obj, vs, loc)
            f = self.P.funcs.get(key)
            if f is None or f.get('pure') and f.get('body') is None:
                if f is not None and f.get('pure'):
                    self.alarm(s, 'pure-call', 'pure virtual function %s called' % f['q'], n)
                    return []
            if f is None or f.get('body') is None:
                if f is not None and (f.get('defaulted') or f.get('implicit')) and n.get('op') == '=':
                    outs = self.assign_members(s, f['cls'], this, vs[0], f, n)
                    return [(x, this) for x in outs]
                if self.special_assign(key):
                    outs = self.assign_members(s, cls, this, vs[0], self.P.method_by_key[key], n)
                    return [(x, this) for x in outs]
                if n.get('q', '').split('::')[-1].startswith('~'):
                    return [(x, VOID) for x in self.destroy_cls(s, this, cls, n)]
                return self.unmodelled(n, s, vs, n['q'])
            return self.invoke(s, key, this, vs, n, loc)
        # library method
        if obj is NULL:
            self.deref(s, obj, n, 'method call')
        if isinstance(obj, Ptr) and obj.arr:
            obj = Ptr(obj.obj, obj.path + (('e', obj.idx),)) if not isinstance(self.peek(s, obj), (Str, CBuf)) else obj
        # closure operator()
        if n.get('op') == '()' :
            v = self.peek(s, obj) if isinstance(obj, Ptr) else None
            if isinstance(v, Rec) and v.cls == '$lambda':
                return self.call_closure(s, obj, vs, n, loc, None)
            if isinstance(v, Rec) and v.cls == 'std::function' and isinstance(v.f.get('f'), Ptr):
                return self.call_closure(s, v.f['f'], vs, n, loc, None)
        name = n['q'].split('::')[-1]
        m = self.models.METHODS.get((cls, name)) or self.models.METHODS.get((cls, '*'))
        if m is None and n.get('op'):
            m = self.models.METHODS.get((cls, n['op']))
        if m is None:
            return self.unmodelled(n, s, vs, n['q'], obj)
        r = m(self, s, n, obj, vs)
        if r is None:
            return self.unmodelled(n, s, vs, n['q'], obj)
        return r

    def special_assign(self, key):
        m = self.P.method_by_key.get(key)
        return m is not None and (m.get('cassign') or m.get('massign'))

    def peek(self, s, p):
        ob = s.h.get(p.obj) if p.obj[0] != 'F' else None
        if p.obj[0] == 'L':
            return p.obj[1]
        if ob is None:
            return None
        v = ob.val
        for x in p.path:
            if isinstance(x, str) and isinstance(v, Rec):
                v = v.f.get(x)
            elif isinstance(x, tuple) and isinstance(v, Arr):
                v = dict(v.ex).get(x[1], v.tmpl)
            else:
                return None
        return v

    def dyncls(self, s, p, n):
        ob = self.base(s, p, n, 'virtual call')
        if ob is None:
            raise Infeasible('bad this')
        v = self.getpath(s, ob.val, p.path, n)
        return v.cls if isinstance(v, Rec) else None

    def pm_call(self, n, s, obj, ptr, vs, loc):
        if ptr is NULL or ptr is UNDEF:
            self.alarm(s, 'null', 'call through a null member function pointer', n)
            return []
        if not isinstance(ptr, MFn):
            return self.unmodelled(n, s, vs, 'member pointer')
        if not isinstance(obj, Ptr):
            self.deref(s, obj, n)
            return self.unmodelled(n, s, vs, 'member pointer object')
        key = ptr.key
        if ptr.virt:
            dyn = self.dyncls(s, obj, n)
            if dyn is not None:
                key = self.P.find_override(dyn, key) or key
        if key in self.overrides:
            return self.overrides[key](self, s, n, obj, vs, loc)
        if key not in self.P.funcs or self.P.funcs[key].get('body') is None:
            return self.unmodelled(n, s, vs, ptr.q)
        return self.invoke(s, key, obj, vs, n, loc)

    def unmodelled(self, n, s, vs, what, obj=None):
        """unknown function: result unknown, objects it can reach by non-const reference become unknown"""
        why = 'no model for %s' % what
        self.undec(s, why, n)
        s.imprecise(why)
        tags = frozenset()
        for v in list(vs) + ([obj] if obj is not None else []):
            tags |= self.tags_of(s, v)
            if isinstance(v, Ptr) and v.obj[0] not in ('L',):
                pv = self.peek(s, v)
                if isinstance(pv, (Str,)) and v.obj in s.h:
                    try:
                        self.store(s, Ptr(v.obj, v.path), Str((new_unk(str_tags(pv) | tags),)), n)
                    except Infeasible:
                        pass
        t = n['t']
        if t is None or t.k == 'void':
            return [(s, VOID)]
        if self.is_recval(n):
            if t.q in STRCLS:
                return [(s, Str((new_unk(tags),)))]
            return [(s, Rec(t.q, {}))]
        return [(s, self.unknown(t, what) if not t.is_ptr() else Top(why, tags))]

    def tags_of(self, s, v):
        if isinstance(v, Str):
            return str_tags(v)
        if isinstance(v, Ptr):
            pv = self.peek(s, v)
            if isinstance(pv, Str):
                return str_tags(pv)
            if isinstance(pv, CBuf) and pv.txt is not None:
                return str_tags(pv.txt)
            if isinstance(pv, Rec) and isinstance(pv.f.get('buf'), Str):
                return str_tags(pv.f['buf'])
        if isinstance(v, Top):
            return v.tags
        return frozenset()

    # -- invocation of a function with a body
    def invoke(self, st, key, this, vs, n, loc, clo=None):
        f = self.P.funcs[key]
        self.fnset.add(key)
        if st.depth >= self.maxdepth:
            st.imprecise('call depth')
            self.undec(st, 'call depth exceeded in ' + f['q'], n)
            return [(st, self.unknown(n['t'] if n else None, 'depth'))]
        rec = sum(1 for k in st.stack if k == key)
        if rec >= 3:
            self.alarm(st, 'recursion', 'unbounded recursion: %s re-enters itself' % f['q'], n)
            return []
        pend = self.bind_params(st, f, vs, n)
        if self.g is not None:
            self.g.on_enter(self, st, f, this, vs)
        d = st.depth + 1
        st.depth = d
        st.stack = st.stack + (key,)
        mark = len(st.cl)
        if this is not None:
            st.h[('this', d)] = Obj('this', this)
        if clo is not None:
            st.h[('clo', d)] = Obj('clo', clo)
        if loc is not None:
            st.h[('rl', d)] = Obj('rl', loc)
        for oid, o, t in pend:
            st.h[oid] = o
            if t is not None:
                self.track(st, oid, t)
        if self.memo is not None:
            self.path.append(id(n))
            if 2 <= d <= 3 and not self.suppress and f.get('cls') in self.memo_cls and not f.get('const'):
                k = (tuple(self.path), fingerprint(st))
                if k in self.memo:
                    # everything that follows was already analysed from an identical state
                    self.memo_hits += 1
                    self.path.pop()
                    return []
                self.memo.add(k)
                if self.memo_dbg is not None:
                    self.memo_dbg(self, f, k)
        try:
            outs = self.exec(f['body'], st)
        finally:
            if self.memo is not None:
                self.path.pop()
        res = []
        for kd, s in outs:
            if s.exc is None and kd in (B, C):
                kd = N
            # parameters with destructors
            for s2 in self.unwind(s, mark, n):
                res.append(s2)
        return self.finish(res, d, f, n, loc, this)

    def bind_params(self, st, f, vs, n):
        d = st.depth + 1
        pend = []
        for i, p in enumerate(f['params']):
            if i >= len(vs):
                break
            v = vs[i]
            t = p['t']
            oid = ('v', d, p['id'])
            if t.k == 'ref':
                pend.append((oid, Obj('ref', v), None))
            elif t.k == 'rec':
                if isinstance(v, Ptr):
                    # ownership of the temporary moves into the parameter
                    val = self.load(st, v, n)
                    if v.obj[0] == 't' and not v.path:
                        st.cl = tuple(c for c in st.cl if c[0] != v.obj)
                        del st.h[v.obj]
                    pend.append((oid, Obj('var', val), t))
                else:
                    pend.append((oid, Obj('var', v), t))
            else:
                pend.append((oid, Obj('var', v), None))
        return pend

    def finish(self, states, d, f, n, loc, this):
        """leave the frame; merge the exit states; [(st, value)]"""
        for s in states:
            self.pop_frame(s, d)
            if self.g is not None:
                self.g.on_exit(self, s, f, this)
        t = f['ret']
        isref = t is not None and t.k == 'ref'
        isrec = t is not None and t.k in ('rec',) and not isref
        if len(states) > 1 and f.get('key') not in self.nomerge:
            states = self.merge(states)
        out = []
        for s in states:
            r = s.h.pop(('r', d), None)
            if s.exc is not None:
                out.append((s, None))
            elif isrec:
                out.append((s, loc if loc is not None else VOID))
            elif t is None or t.k == 'void' or f['kind'] in ('ctor', 'dtor'):
                out.append((s, VOID))
            elif r is None:
                self.alarm(s, 'no-return', 'control reaches the end of non-void function %s' % f['q'], n)
            else:
                out.append((s, r.val))
        return out

    def pop_frame(self, s, d):
        h = s.h
        dead = [k for k in h if k[0] in ('v', 't', 'x', 'this', 'clo', 'rl', 'exc') and k[1] >= d]
        for k in dead:
            del h[k]
        s.depth = d - 1
        s.stack = s.stack[:-1]

    dbg = None
    nomerge = ()        # keys of functions whose paths are kept apart

    def merge(self, states):
        if self.nomerge and states and states[0].stack and states[0].stack[-1] in self.nomerge:
            return states
        if self.g is not None:
            for s in states:
                self.g.normalise(self, s)
        if len(states) > self.MAXSTATES:
            self.undec(states[0], 'too many paths')
            states = states[:self.MAXSTATES]
        return merge_states(states, self.leak)

    def call_closure(self, s, clo, vs, n, loc, key):
        ob = self.base(s, clo, n)
        if ob is None:
            raise Infeasible('closure')
        v = self.getpath(s, ob.val, clo.path, n)
        if isinstance(v, Rec) and v.cls == '$lambda':
            ops = v.f['$ops'].key
            if key is None or key not in ops:
                key = None
                for o in ops:
                    if o in self.P.funcs and len(self.P.funcs[o]['params']) == len(vs):
                        key = o
            if key:
                return self.invoke(s, key, None, vs, n, loc, clo=clo)
        return self.unmodelled(n, s, vs, 'closure')

    # -- constructors and destructors
    def call_ctor(self, st, key, cls, loc, vs, n, base=False):
        """run constructor key of repo class cls on the (already allocated) object at loc"""
        f = self.P.funcs.get(key)
        if key in self.overrides:
            return [x for x, _ in self.overrides[key](self, st, n, loc, vs, None)]
        if not base:
            st2 = self.undef_rec(cls)
            try:
                self.store(st, loc, st2, n)
            except Infeasible:
                return []
        meth = self.P.method_by_key.get(key, {})
        if f is None or (f.get('body') is None and not f.get('inits')):
            # implicit or defaulted
            cp = (f or meth).get('copy'); mv = (f or meth).get('move')
            if (cp or mv) and vs:
                return self.copy_members(st, cls, loc, vs[0], bool(mv), n)
            return self.default_members(st, cls, loc, n)
        self.fnset.add(key)
        if st.depth >= self.maxdepth:
            st.imprecise('call depth')
            return [st]
        pend = self.bind_params(st, f, vs, n)
        d = st.depth + 1
        st.depth = d
        st.stack = st.stack + (key,)
        mark = len(st.cl)
        st.h[('this', d)] = Obj('this', loc)
        for oid, o, t in pend:
            st.h[oid] = o
            if t is not None:
                self.track(st, oid, t)
        deleg = False
        # (state, list of constructed sub-objects)
        cur = [(st, ())]
        for ini in f.get('inits') or []:
            nx = []
            for s, done in cur:
                if s.exc is not None:
                    nx.append((s, done)); continue
                nid_ = (ini.get('f') and (ini['cls'] + '::' + ini['f']))
                emark = len(s.cl)
                try:
                    if 'base' in ini or ini.get('deleg'):
                        bt = ini.get('base')
                        bq = bt.q if bt is not None and bt is not True and not ini.get('deleg') else cls
                        if ini.get('deleg'):
                            deleg = True
                        rs = self.init_base(ini['e'], loc, s, bq, bool(ini.get('deleg')))
                        for r in rs:
                            if r.exc is None:
                                self.drop_temps_from(r, emark, n)
                            nx.append((r, done + ((('base', bq) if not ini.get('deleg') else ('self', cls)),) if r.exc is None else done))
                    else:
                        p = Ptr(loc.obj, loc.path + (nid_,))
                        for r in self.init_at(ini['e'], p, s, ini['t']):
                            if r.exc is None:
                                self.drop_temps_from(r, emark, n)
                            nx.append((r, done + (('field', nid_, ini['t']),) if r.exc is None else done))
                except Infeasible:
                    pass
            cur = nx
        res = []
        for s, done in cur:
            if s.exc is None:
                self.setcls(s, loc, cls)
                for kd, s2 in self.exec(f['body'], s):
                    for s3 in self.unwind(s2, mark, n):
                        res.append((s3, done))
            else:
                for s3 in self.unwind(s, mark, n):
                    res.append((s3, done))
        final = []
        for s, done in res:
            if s.exc is not None and done:
                exc = s.exc; s.exc = None
                ss = [s]
                for w in reversed(done):
                    nx = []
                    for x in ss:
                        if w[0] == 'field':
                            if self.needs_dtor(w[2]):
                                nx.extend(self.destroy(x, Ptr(loc.obj, loc.path + (w[1],)), w[2], n))
                            else:
                                nx.append(x)
                        elif w[0] == 'base' or w[0] == 'self':
                            nx.extend(self.destroy_cls(x, loc, w[1], n))
                    ss = nx
                for x in ss:
                    x.exc = exc
                    final.append(x)
            else:
                final.append(s)
        return [s for s, v in self.finish(final, d, f, n, None, loc)]

    def drop_temps_from(self, s, mark, n):
        pass

    def setcls(self, s, loc, cls):
        ob = self.base(s, loc, None)
        if ob is None:
            return
        v = self.getpath(s, ob.val, loc.path, None)
        if isinstance(v, Rec) and v.cls != cls:
            self.store(s, loc, Rec(cls, v.f), None)

    def init_base(self, e, loc, st, bq, deleg):
        """base-class or delegated constructor on the same storage"""
        mark = len(st.cl)
        x = e
        while x['k'] == 'clean':
            x = x['e']
        if x['k'] == 'ctor':
            out = []
            if x.get('inh'):
                f = self.P.funcs.get(st.stack[-1])
                vs = []
                for p in f['params']:
                    o = st.h.get(('v', st.depth, p['id']))
                    vs.append(o.val if o is not None else Top('param'))
                return self.call_ctor(st, x['fn'], x['cls'], loc, vs, x, base=not deleg)
            for s, vs in self.eval_args(x, x['args'], x['pt'], st):
                if s.exc is not None:
                    out.append(s); continue
                if self.is_repo_cls(bq) or x['fn'] in self.P.funcs:
                    for r in self.call_ctor(s, x['fn'], x['cls'], loc, vs, x, base=not deleg):
                        out.extend(y for y, _ in self.clean_temps(r, None, mark, x))
                else:
                    out.append(s)
            return out
        if x['k'] in ('zero',):
            return self.default_members(st, bq, loc, x)
        st.imprecise('base initialiser ' + x['k'])
        return [st]

    def default_members(self, st, cls, loc, n):
        cur = [st]
        for b in self.P.bases(cls):
            m = self.ctor_default(b)
            nx = []
            for s in cur:
                if m:
                    nx.extend(self.call_ctor(s, m['key'], b, loc, [], n, base=True))
                else:
                    nx.extend(self.default_members(s, b, loc, n))
            cur = nx
        for x in self.P.fields(cls):
            t = x['t']
            p = Ptr(loc.obj, loc.path + (cls + '::' + x['n'],))
            nx = []
            for s in cur:
                if x.get('init') is not None:
                    d = s.depth
                    s.depth = d + 1
                    s.h[('this', d + 1)] = Obj('this', loc)
                    for r in self.init_at(x['init'], p, s, t):
                        self.pop_init(r, d)
                        nx.append(r)
                elif t.k == 'rec' and t.repo and self.ctor_default(t.q):
                    nx.extend(self.call_ctor(s, self.ctor_default(t.q)['key'], t.q, p, [], n))
                elif t.k == 'rec' and not t.repo:
                    v = self.models.default_value(t)
                    self.store(s, p, v, n)
                    nx.append(s)
                else:
                    nx.append(s)
            cur = nx
        for s in cur:
            self.setcls(s, loc, cls)
        return cur

    def pop_init(self, s, d):
        s.depth = d
        for k in [k for k in s.h if k[0] in ('t', 'this', 'x') and k[1] == d + 1]:
            del s.h[k]

    def ctor_default(self, cls):
        r = self.P.records.get(cls)
        if not r:
            return None
        for m in r['methods']:
            if m['kind'] == 'ctor' and m['np'] == 0 and not m.get('deleted'):
                return m
        return None

    def copy_members(self, st, cls, loc, src, move, n):
        if not isinstance(src, Ptr):
            self.deref(st, src, n)
        cur = [st]
        for b in self.P.bases(cls):
            nx = []
            for s in cur:
                m = (self.P.special(b, 'movector') if move else None) or self.P.special(b, 'copyctor') if b in self.P.records else None
                if m is not None and not m.get('deleted'):
                    nx.extend(self.call_ctor(s, m['key'], b, loc, [src], n, base=True))
                else:
                    nx.extend(self.copy_members(s, b, loc, src, move, n))
            cur = nx
        for x in self.P.fields(cls):
            t = x['t']
            fn = cls + '::' + x['n']
            p = Ptr(loc.obj, loc.path + (fn,)); q = Ptr(src.obj, src.path + (fn,))
            nx = []
            for s in cur:
                if t.k == 'rec' and t.repo:
                    m = (self.P.special(t.q, 'movector') if move else None) or self.P.special(t.q, 'copyctor')
                    if m is not None:
                        nx.extend(self.call_ctor(s, m['key'], t.q, p, [q], n)); continue
                if t.k == 'rec' and t.q == 'std::vector':
                    nx.extend(self.copy_vec(s, p, q, t, move, n)); continue
                try:
                    v = self.getpath(s, self.base(s, q, n).val, q.path, n)
                    if v is None:
                        v = UNDEF
                    self.store(s, p, v, n)
                    if move:
                        if t.k == 'rec' and t.q in ('std::unique_ptr', 'std::shared_ptr'):
                            self.store(s, q, Rec(t.q, {'p': NULL, 'd': v.f.get('d') if isinstance(v, Rec) else None}), n)
                        elif t.k == 'rec' and t.q in STRCLS:
                            pass
                    nx.append(s)
                except Infeasible:
                    pass
            cur = nx
        for s in cur:
            self.setcls(s, loc, cls)
        return cur

    def copy_vec(self, s, p, q, t, move, n):
        """copy (element by element) or move the vector at q to the one at p, which holds nothing"""
        et = t.ta[0] if t.ta else None
        try:
            v = self.getpath(s, self.base(s, q, n).val, q.path, n)
            if not isinstance(v, Arr) or move or not (et is not None and et.k == 'rec' and et.repo):
                self.store(s, p, UNDEF if v is None else v, n)
                if move and isinstance(v, Arr):
                    self.store(s, q, Arr(0, kind=v.kind), n)
                return [s]
            self.store(s, p, Arr(0, kind=v.kind), n)
            return self.models.copy_elems(self, s, p, et, q, n)
        except Infeasible:
            return []

    def assign_members(self, st, cls, loc, src, f, n):
        move = bool(f.get('massign'))
        cur = [st]
        for b in self.P.bases(cls):
            nx = []
            for s in cur:
                m = (self.P.special(b, 'moveassign') if move else None) or self.P.special(b, 'copyassign') if b in self.P.records else None
                if m is not None and m['key'] in self.P.funcs and self.P.funcs[m['key']].get('body') is not None:
                    nx.extend(x for x, _ in self.invoke(s, m['key'], loc, [src], n, None))
                else:
                    nx.extend(self.assign_members(s, b, loc, src, f, n))
            cur = nx
        for x in self.P.fields(cls):
            t = x['t']
            fn = cls + '::' + x['n']
            p = Ptr(loc.obj, loc.path + (fn,)); q = Ptr(src.obj, src.path + (fn,))
            nx = []
            for s in cur:
                if t.k == 'rec' and t.repo:
                    m = (self.P.special(t.q, 'moveassign') if move else None) or self.P.special(t.q, 'copyassign')
                    if m is not None and m['key'] in self.P.funcs and self.P.funcs[m['key']].get('body') is not None:
                        nx.extend(y for y, _ in self.invoke(s, m['key'], p, [q], n, None)); continue
                    nx.extend(self.assign_members(s, t.q, p, q, f, n)); continue
                if t.k == 'rec' and t.q == 'std::vector':
                    if p == q:
                        nx.append(s); continue
                    et = t.ta[0] if t.ta else None
                    olds = [s]
                    if et is not None and self.needs_dtor(et):
                        v = self.peek(s, p)
                        if isinstance(v, Arr):
                            olds = self.destroy_elems(s, p, et, v, n)
                    for y in olds:
                        nx.extend(self.copy_vec(y, p, q, t, move, n))
                    continue
                try:
                    v = self.getpath(s, self.base(s, q, n).val, q.path, n)
                    if t.k == 'rec' and t.q == 'std::unique_ptr':
                        old = self.getpath(s, self.base(s, p, n).val, p.path, n)
                        self.store(s, p, v, n)
                        self.store(s, q, Rec(t.q, {'p': NULL, 'd': v.f.get('d') if isinstance(v, Rec) else None}), n)
                        if isinstance(old, Rec):
                            nx.extend(self.drop_owned(s, old.f.get('p', NULL), old.f.get('d'), t, n))
                        else:
                            nx.append(s)
                        continue
                    self.store(s, p, UNDEF if v is None else v, n)
                    nx.append(s)
                except Infeasible:
                    pass
            cur = nx
        return cur

    def destroy(self, st, loc, t, n):
        """destroy the object of type t at loc -> states"""
        if t.k == 'arr':
            cur = [st]
            if isinstance(t.n, int) and t.n <= 16:
                for i in range(t.n - 1, -1, -1):
                    cur = [x for s in cur for x in self.destroy(s, Ptr(loc.obj, loc.path + (('e', i),)), t.to, n)]
            return cur
        if t.k != 'rec':
            return [st]
        if t.repo:
            return self.destroy_cls(st, loc, t.q, n)
        if t.q in ('std::unique_ptr', 'std::shared_ptr'):
            v = self.peek(st, loc)
            if isinstance(v, Rec):
                p = v.f.get('p', NULL)
                d = v.f.get('d')
                self.store(st, loc, Rec(t.q, {'p': NULL, 'd': d}), n)
                return self.drop_owned(st, p, d, t, n)
        if t.q == 'std::vector' and t.ta and self.needs_dtor(t.ta[0]):
            v = self.peek(st, loc)
            if isinstance(v, Arr):
                return self.destroy_elems(st, loc, t.ta[0], v, n)
        return [st]

    def drop_owned(self, st, p, d, t, n):
        """release what a smart pointer of type t with deleter d owned -> states"""
        if p is NULL or p is None:
            return [st]
        ta = t.ta[0] if t.ta else None
        dt = t.ta[1] if t.ta and len(t.ta) > 1 and not isinstance(t.ta[1], (int, str)) else None
        isarr = ta is not None and ta.k == 'arr'
        if isinstance(d, Ptr):
            dv = self.peek(st, d)
            if isinstance(dv, Rec):
                d = dv
        if isinstance(d, Fn):
            nn = dict(n or {}); nn.update({'q': d.q, 'fn': d.key, 't': self.P.types.get('void'), 'args': [], 'k': 'call'})
            nn.setdefault('l', None)
            if d.key in self.P.funcs and self.P.funcs[d.key].get('body') is not None:
                return [x for x, _ in self.invoke(st, d.key, None, [p], nn, None)]
            m = self.models.FUNCS.get(d.q)
            r = m(self, st, nn, [p]) if m else None
            if r is None:
                self.undec(st, 'no model for deleter ' + d.q, n)
                st.imprecise('deleter ' + d.q)
                return [st]
            return [x for x, _ in r]
        if dt is not None and dt.k == 'rec' and dt.q != 'std::default_delete':
            key = None
            if dt.repo or dt.lam:
                for k, f in self.P.funcs.items():
                    if f.get('cls') == dt.q and f['n'] == 'operator()' and f.get('body') is not None:
                        key = k
                if isinstance(d, Rec) and d.cls == '$lambda':
                    for k in d.f['$ops'].key:
                        if k in self.P.funcs:
                            key = k
            if key is not None:
                did = ('x', st.depth, ('del', self.nid(n) if n else 0))
                st.h[did] = Obj('tmp', d if isinstance(d, Rec) else Rec(dt.q, {}))
                nn = dict(n or {}); nn.setdefault('l', None); nn['t'] = self.P.types.get('void')
                return [x for x, _ in self.invoke(st, key, Ptr(did), [p], nn, None, clo=Ptr(did))]
            self.undec(st, 'no model for deleter ' + dt.q, n)
            st.imprecise('deleter ' + dt.q)
            return [st]
        return self.delete_ptr(st, p, ta.to if isarr else ta, n, isarr)

    def destroy_elems(self, st, loc, et, v, n):
        c = st.const(v.n)
        if c is not None and c <= 16:
            cur = [st]
            for i in range(c):
                cur = [x for s in cur for x in self.destroy(s, Ptr(loc.obj, loc.path + (('e', i),)), et, n)]
            return cur
        vid = ('t', st.depth, ('dl', self.nid(n) if n else 0))
        st.h[vid] = Obj('var', 0)
        def cond(s):
            i = s.h[vid].val
            return self.compare(s, '<', i, v.n, n)
        def body(s):
            i = s.h[vid].val
            before = self.peek(s, loc)
            out = []
            for x in self.destroy(s, Ptr(loc.obj, loc.path + (('e', i),)), et, n):
                # what the destructor wrote into the dead element does not matter any more
                if isinstance(before, Arr) and isinstance(self.peek(x, loc), Arr):
                    try:
                        self.store(x, loc, before, n)
                    except Infeasible:
                        pass
                out.append((N, x))
            return out
        def inc(s):
            s.h[vid] = Obj('var', add(s.h[vid].val, 1))
            return [s]
        out = []
        for kd, s in self.run_loop(st, cond, body, inc, n or {'l': None}):
            s.h.pop(vid, None)
            out.append(s)
        return out

    def destroy_cls(self, st, loc, cls, n):
        m = self.P.special(cls, 'dtor') if cls in self.P.records else None
        cur = [st]
        try:
            self.setcls(st, loc, cls)
        except Infeasible:
            return []
        if m is not None and m['key'] in self.P.funcs and self.P.funcs[m['key']].get('body') is not None:
            cur = []
            for x, _ in self.invoke(st, m['key'], loc, [], n or {'l': None, 't': None}, None):
                cur.append(x)
        for x in reversed(self.P.fields(cls)):
            if self.needs_dtor(x['t']):
                p = Ptr(loc.obj, loc.path + (cls + '::' + x['n'],))
                cur = [y for s in cur for y in (self.destroy(s, p, x['t'], n) if s.exc is None else [s])]
        for b in reversed(self.P.bases(cls)):
            if b in self.P.records and (self.is_repo_cls(b)):
                cur = [y for s in cur for y in (self.destroy_cls(s, loc, b, n) if s.exc is None else [s])]
        return cur

    def unwind(self, st, mark, n):
        """destroy automatic objects registered since mark"""
        if len(st.cl) <= mark:
            return [st]
        todo = st.cl[mark:]
        st.cl = st.cl[:mark]
        cur = [st]
        for oid, ts, _ in reversed(todo):
            nx = []
            for s in cur:
                if oid not in s.h:
                    nx.append(s); continue
                exc = s.exc; s.exc = None
                try:
                    for s2 in self.destroy(s, Ptr(oid), self.P.types[ts], n):
                        if s2.exc is None:
                            s2.exc = exc
                        nx.append(s2)
                except Infeasible:
                    pass
            cur = nx
        return cur

    # ------------------------------------------------------------ new / delete
    def site(self, st, n, what):
        return (st.stack[-1] if st.stack else '?', n.get('l'), what)

    def e_new(self, n, st):
        et = n['et']
        if n.get('place'):
            pl = n['place']
            if not (pl[0].get('t') is not None and 'nothrow' in pl[0]['t'].s):
                st.imprecise('placement new')
        if 'n' in n and n['n'] is not None:
            out = []
            for s, cnt in self.ev(n['n'], st):
                if s.exc is not None:
                    out.append((s, None)); continue
                if not is_num(cnt):
                    cnt = cnt if isinstance(cnt, Top) else Top('count')
                    cap = fresh('cap', 0, MAXLEN, True)
                else:
                    cap = cnt
                oid = s.new_id('h')
                ini = n.get('init')
                zero = ini is not None and ini['k'] in ('zero', 'ilist')
                if et.ch:
                    if ini is not None and ini['k'] == 'str':
                        v = CBuf(cap, lit(bytes.fromhex(ini['x'])), 'Z')
                    elif ini is not None and ini['k'] == 'ilist' and ini['e']:
                        v = CBuf(cap, Str((new_unk(),)), True)
                    else:
                        v = CBuf(cap, EMPTY if zero else None, 'Z' if zero else False)
                elif et.k == 'rec':
                    s.h[oid] = Obj('new[]', Arr(cap), 'alive', self.site(s, n, 'array of ' + et.s), ty=et.s)
                    rs = self.construct_array({'k': 'ctor', 'cls': et.q, 'args': (ini or {}).get('args', []), 'fn': (ini or {}).get('fn'),
                                               'repo': (ini or {}).get('repo'), 'pt': [], 't': et, 'l': n['l'], 'copy': 0}, Ptr(oid), s, et, cap)
                    out.extend((x, Ptr(oid, (), True, 0)) for x in rs)
                    continue
                else:
                    v = Arr(cap, 0, cap if zero else 0, self.zero(et) if zero else None, (), 'arr')
                s.h[oid] = Obj('new[]', v, 'alive', self.site(s, n, 'new %s[]' % et.s), ty=et.s)
                out.append((s, Ptr(oid, (), True, 0)))
            return out
        oid = st.new_id('h')
        st.h[oid] = Obj('new', self.undef(et), 'alive', self.site(st, n, 'new ' + et.s), ty=et.s)
        ini = n.get('init')
        out = []
        if ini is None:
            return [(st, Ptr(oid))]
        if et.k == 'rec':
            for s in self.ev_into(ini, Ptr(oid), st, et):
                if s.exc is not None:
                    s.h.pop(oid, None)
                out.append((s, Ptr(oid)))
            return out
        for s, v in self.ev(ini, st):
            if s.exc is None:
                s.h[oid] = s.h[oid].with_(val=v)
            out.append((s, Ptr(oid)))
        return out

    def e_delete(self, n, st):
        out = []
        for s, p in self.ev(n['e'], st):
            if s.exc is not None:
                out.append((s, None)); continue
            try:
                out.extend((x, VOID) for x in self.delete_ptr(s, p, n['et'], n, bool(n['arr'])))
            except Infeasible:
                pass
        return out

    def delete_ptr(self, s, p, et, n, arr):
        self.ob('free')
        if p is NULL:
            return [s]
        if p is UNDEF:
            self.alarm(s, 'uninit-free', 'delete of an uninitialised pointer', n)
            return []
        if not isinstance(p, Ptr):
            s.imprecise('delete of unknown pointer')
            self.undec(s, 'delete of an unknown pointer', n)
            return [s]
        o = p.obj
        if o[0] == 'L' or o[0] in ('v', 'g', 't', 'x'):
            self.alarm(s, 'bad-free', 'delete of memory not obtained from new', n)
            return []
        if o[0] == 'F':
            f = s.h.get(('F', o[1]))
            if f is None:
                self.alarm(s, 'double-free', 'object released twice', n)
                return []
            ob = self.base(s, p, n, 'delete')
            if ob is None:
                # base() reported use after release; classify as double free too
                return []
            kind = f.kind
        else:
            ob = s.h.get(o)
            if ob is None:
                self.alarm(s, 'double-free', 'delete of an object whose lifetime has ended', n)
                return []
            if ob.status != 'alive':
                self.alarm(s, 'double-free', 'object released twice (allocated at line %s)' % (ob.site[1] if ob.site else '?'), n)
                return []
            kind = ob.kind
        if kind not in ('new', 'new[]'):
            self.alarm(s, 'bad-free', 'delete of memory owned by someone else', n)
            return []
        if p.path or (p.arr and not (isinstance(p.idx, int) and p.idx == 0) and not s.eq(p.idx, 0)):
            self.alarm(s, 'bad-free', 'delete of an interior pointer', n)
            return []
        if (kind == 'new[]') != arr:
            self.alarm(s, 'mismatch', 'memory from %s released with %s' % ('new[]' if kind == 'new[]' else 'new', 'delete[]' if arr else 'delete'), n)
            return []
        cur = [s]
        v = ob.val
        if kind == 'new' and isinstance(v, Rec) and v.cls in self.P.records and self.is_repo_cls(v.cls):
            cls = v.cls
            if et is not None and et.k == 'rec' and et.q != cls and et.q in self.P.records:
                m = self.P.special(et.q, 'dtor')
                virt = m is not None and (m.get('virt') or self.P.method_by_key.get(m['key'], {}).get('virt'))
                if not virt and not self.any_virtual_dtor(et.q):
                    self.alarm(s, 'nonvirtual-delete', 'delete of a %s through a base pointer without virtual destructor' % cls, n)
            cur = self.destroy_cls(s, Ptr(o, ()), cls, n)
        elif kind == 'new[]' and isinstance(v, Arr) and et is not None and self.needs_dtor(et):
            cur = self.destroy_elems(s, Ptr(o, ()), et, v, n)
        out = []
        for x in cur:
            if x.exc is not None:
                out.append(x); continue
            if o[0] == 'F':
                f = x.h.get(('F', o[1]))
                if f is not None:
                    ex = [e for e in f.ex if not (e[0] == o[2] or x.eq(e[0], o[2]))]
                    ex.append((o[2], 'freed', UNDEF))
                    x.h[('F', o[1])] = f.with_(ex=tuple(ex))
            else:
                x.h[o] = x.h[o].with_(status='freed', val=UNDEF)
            out.append(x)
        return out

    def any_virtual_dtor(self, cls):
        for c in [cls] + self.P.all_bases(cls):
            m = self.P.special(c, 'dtor') if c in self.P.records else None
            if m is not None and m.get('virt'):
                return True
        return False

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        if n is None:
            return [(N, st)]
        self.stmts += 1
        m = self.ex_t.get(n['k'])
        if m is None:
            st.imprecise('unsupported statement ' + n['k'])
            self.undec(st, 'unsupported statement ' + str(n.get('c') or n['k']), n)
            return [(N, st)]
        try:
            return m(n, st)
        except Infeasible:
            return []

    def s_nop(self, n, st):
        return [(N, st)]

    def s_expr(self, n, st):
        mark = len(st.cl)
        out = []
        for s, v in self.ev(n['e'], st):
            for s2, _ in self.clean_temps(s, v, mark, n):
                if s2.exc is None:
                    self.drop_temps(s2)
                    out.append((N, s2))
                else:
                    out.append((X, s2))
        return out

    def s_block(self, n, st):
        mark = len(st.cl)
        cur = [st]
        out = []
        for x in n['s']:
            nx = []
            for s in cur:
                for kd, s2 in self.exec(x, s):
                    if kd == N:
                        nx.append(s2)
                    else:
                        out.append((kd, s2))
            cur = nx
            if not cur:
                break
            if len(cur) > 10:
                for s in cur:
                    self.drop_temps(s)
                cur = self.merge(cur)
        res = []
        for kd, s in [(N, s) for s in cur] + out:
            had = s.exc is not None
            for s2 in self.unwind(s, mark, n):
                res.append((X if s2.exc is not None else kd, s2))
        return res

    def s_decl(self, n, st):
        cur = [st]
        out = []
        for v in n['v']:
            nx = []
            for s in cur:
                for s2 in self.decl_var(v, s, n):
                    if s2.exc is not None:
                        out.append((X, s2))
                    else:
                        nx.append(s2)
            cur = nx
        return out + [(N, s) for s in cur]

    def decl_var(self, v, st, n):
        oid = ('v', st.depth, v['id'])
        t = v['t']
        ini = v.get('init')
        if v.get('static'):
            gid = ('g', v['id'])
            if gid not in st.h:
                g = {'init': ini, 't': t} if ini is not None else None
                val = self.ginit(g) if g and t.const else None
                st.h[gid] = Obj('glob', val if val is not None else Top('static local'))
            st.h[oid] = Obj('ref', Ptr(gid))
            return [st]
        mark = len(st.cl)
        if t.k == 'ref':
            out = []
            for s, p in self.ev(ini, st):
                if s.exc is None:
                    s.h[oid] = Obj('ref', p)
                for s2, _ in self.clean_temps(s, None, mark, n):
                    out.append(s2)
            res = out
        elif t.k in ('rec', 'arr'):
            st.h[oid] = Obj('var', self.undef(t))
            if ini is None:
                if t.k == 'rec' and not t.repo:
                    st.h[oid] = Obj('var', self.models.default_value(t))
                return [st]
            res = []
            for s in self.ev_into(ini, Ptr(oid), st, t):
                for s2, _ in self.clean_temps(s, None, mark, n):
                    if s2.exc is None:
                        self.track(s2, oid, t)
                    res.append(s2)
        else:
            if ini is None:
                st.h[oid] = Obj('var', UNDEF)
                return [st]
            res = []
            for s, x in self.ev(ini, st):
                if s.exc is None:
                    s.h[oid] = Obj('var', x)
                for s2, _ in self.clean_temps(s, None, mark, n):
                    res.append(s2)
        for s in res:
            if s.exc is None:
                self.drop_temps(s)
                if v.get('bind'):
                    self.bindings(v, s, n)
        return res

    def bindings(self, v, s, n):
        for b in v['bind']:
            if b.get('hold') is not None:
                for s2 in self.decl_var(b['hold'], s, n):
                    pass
                o = s.h.get(('v', s.depth, b['hold']['id']))
                if o is not None:
                    s.h[('v', s.depth, b['id'])] = o

    def s_if(self, n, st):
        out = []
        starts = [st]
        mark = len(st.cl)
        for pre in ('init', 'cv'):
            if n.get(pre):
                nx = []
                for s in starts:
                    for kd, s2 in self.exec(n[pre], s):
                        if kd == N:
                            nx.append(s2)
                        else:
                            out.append((kd, s2))
                starts = nx
        for s0 in starts:
            m2 = len(s0.cl)
            for s, v in self.cond(n['c'], s0):
                for s2, _ in self.clean_temps(s, None, m2, n):
                    if s2.exc is not None:
                        out.append((X, s2)); continue
                    self.drop_temps(s2)
                    br = n['a'] if v else n.get('b')
                    out.extend(self.exec(br, s2) if br is not None else [(N, s2)])
        if n.get('init') or n.get('cv'):
            res = []
            for kd, s in out:
                for s2 in self.unwind(s, mark, n):
                    res.append((X if s2.exc is not None else kd, s2))
            return res
        return out

    def s_ret(self, n, st):
        e = n.get('e')
        d = st.depth
        if e is None:
            return [(R, st)]
        f = self.P.funcs.get(st.stack[-1]) if st.stack else None
        t = f['ret'] if f else e['t']
        mark = len(st.cl)
        out = []
        if t is not None and t.k in ('rec',):
            rl = st.h.get(('rl', d))
            loc = rl.val if rl is not None else None
            if loc is None:
                for s, v in self.ev(e, st):
                    for s2, _ in self.clean_temps(s, v, mark, n):
                        out.append((X if s2.exc is not None else R, s2))
                return out
            # returning a local by value: moving it leaves an object whose destructor runs
            for s in self.ev_into(e, loc, st, t):
                for s2, _ in self.clean_temps(s, None, mark, n):
                    out.append((X if s2.exc is not None else R, s2))
            return out
        for s, v in self.ev(e, st):
            for s2, _ in self.clean_temps(s, v, mark, n):
                if s2.exc is not None:
                    out.append((X, s2)); continue
                if t is None or t.k != 'void':
                    s2.h[('r', d)] = Obj('ret', v)
                out.append((R, s2))
        return out

    def s_break(self, n, st):
        return [(B, st)]

    def s_continue(self, n, st):
        return [(C, st)]

    def s_label(self, n, st):
        return self.exec(n['s'], st)

    def s_case(self, n, st):
        return self.exec(n['s'], st)

    def s_default(self, n, st):
        return self.exec(n['s'], st)

    def flatten_switch(self, body):
        """[(labels, stmt)] in order"""
        items = []
        lst = body['s'] if body['k'] == 'block' else [body]
        for x in lst:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['s']
            items.append((labels, x))
        return items

    def s_switch(self, n, st):
        starts = [st]
        out = []
        mark = len(st.cl)
        for pre in ('init', 'cv'):
            if n.get(pre):
                nx = []
                for s in starts:
                    for kd, s2 in self.exec(n[pre], s):
                        nx.append(s2) if kd == N else out.append((kd, s2))
                starts = nx
        items = self.flatten_switch(n['s'])
        for s0 in starts:
            for s, v in self.ev(n['c'], s0):
                if s.exc is not None:
                    out.append((X, s)); continue
                targets = []
                rest = s
                dflt = None
                for i, (labels, x) in enumerate(items):
                    for l in labels:
                        if l['k'] == 'default':
                            dflt = i; continue
                        if rest is None:
                            continue
                        c = l['v'].get('cv')
                        if l.get('hi') is not None or c is None:
                            rest.imprecise('case range')
                            targets.append((i, rest.copy())); continue
                        nr = None
                        for s2, b in self.compare(rest, '==', v, c, n):
                            if b:
                                targets.append((i, s2))
                            else:
                                nr = s2
                        rest = nr
                if rest is not None:
                    if dflt is not None:
                        targets.append((dflt, rest))
                    else:
                        out.append((N, rest))
                # fall-through execution
                pend = {}
                for i, s2 in targets:
                    pend.setdefault(i, []).append(s2)
                cur = []
                for i, (labels, x) in enumerate(items):
                    cur = cur + pend.get(i, [])
                    nx = []
                    for s2 in cur:
                        for kd, s3 in (self.exec(x, s2) if x is not None else [(N, s2)]):
                            if kd == N:
                                nx.append(s3)
                            elif kd == B:
                                out.append((N, s3))
                            else:
                                out.append((kd, s3))
                    cur = nx
                out.extend((N, s2) for s2 in cur)
        res = []
        for kd, s in out:
            for s2 in self.unwind(s, mark, n):
                res.append((X if s2.exc is not None else kd, s2))
        return res

    def s_try(self, n, st):
        mark = len(st.cl)
        out = []
        for kd, s in self.exec(n['s'], st):
            if s.exc is None:
                out.append((kd, s)); continue
            handled = False
            for h in n['h']:
                if h.get('t') is None or self.catches(h['t'], s.exc):
                    handled = True
                    exc = s.exc
                    s.exc = None
                    s.h[('exc', s.depth)] = Obj('exc', exc)
                    if h.get('v') is not None and h['v'].get('id'):
                        eid = ('x', s.depth, ('exc', h['v']['id']))
                        s.h[eid] = Obj('tmp', exc)
                        oid = ('v', s.depth, h['v']['id'])
                        s.h[oid] = Obj('ref', Ptr(eid)) if h['t'].k == 'ref' else Obj('var', exc)
                    out.extend((X if s2.exc is not None else k2, s2) for k2, s2 in self.exec(h['s'], s))
                    break
            if not handled:
                out.append((X, s))
        return out

    def catches(self, t, exc):
        t = t.noref()
        q = t.q if t.k == 'rec' else t.s
        c = exc.cls
        while c:
            if c == q or (c in self.P.records and self.P.derives(c, q)):
                return True
            nb = EXC_BASE.get(c)
            if nb is None and c in self.P.records:
                for b in self.P.all_bases(c):
                    if b == q:
                        return True
                    x = b
                    while x:
                        if x == q:
                            return True
                        x = EXC_BASE.get(x)
            c = nb
        return False

    # -- loops
    def s_while(self, n, st):
        return self.src_loop(n, st, n.get('cv'), n['c'], None, n['s'])

    def s_do(self, n, st):
        return self.src_loop(n, st, None, n['c'], None, n['s'], do=True)

    def s_for(self, n, st):
        mark = len(st.cl)
        out = []
        for kd, s in (self.exec(n['init'], st) if n.get('init') else [(N, st)]):
            if kd != N:
                out.append((kd, s)); continue
            out.extend(self.src_loop(n, s, n.get('cv'), n.get('c'), n.get('inc'), n['s']))
        res = []
        for kd, s in out:
            for s2 in self.unwind(s, mark, n):
                res.append((X if s2.exc is not None else kd, s2))
        return res

    def src_loop(self, n, st, cv, c, inc, body, do=False):
        def fcond(s):
            ss = [s]
            out = []
            if cv:
                nx = []
                for x in ss:
                    for kd, y in self.exec(cv, x):
                        nx.append(y)
                ss = nx
            for x in ss:
                if x.exc is not None:
                    out.append((x, None)); continue
                if c is None:
                    out.append((x, True)); continue
                m = len(x.cl)
                for y, v in self.cond(c, x):
                    for z, _ in self.clean_temps(y, None, m, n):
                        if z.exc is None:
                            self.drop_temps(z)
                        out.append((z, v))
            return out
        def fbody(s):
            return self.exec(body, s)
        def finc(s):
            if inc is None:
                return [s]
            out = []
            m = len(s.cl)
            for x, v in self.ev(inc, s):
                for y, _ in self.clean_temps(x, None, m, n):
                    if y.exc is None:
                        self.drop_temps(y)
                    out.append(y)
            return out
        const = c is None or c.get('cv') not in (None, 0)
        return self.run_loop(st, fcond, fbody, finc, n, do, const)

    def s_range(self, n, st):
        mark = len(st.cl)
        out = []
        starts = [st]
        if n.get('init'):
            nx = []
            for s in starts:
                for kd, s2 in self.exec(n['init'], s):
                    nx.append(s2) if kd == N else out.append((kd, s2))
            starts = nx
        for s0 in starts:
            for s, p in self.ev(n['range'], s0):
                if s.exc is not None:
                    out.append((X, s)); continue
                if not isinstance(p, Ptr):
                    s.imprecise('range')
                    self.undec(s, 'range of unknown container', n)
                    out.append((N, s)); continue
                # keep the range alive during the loop
                if p.obj[0] == 't':
                    xid = ('x', s.depth, ('rng', self.nid(n)))
                    s.h[xid] = s.h.pop(p.obj)
                    s.cl = tuple((xid if a == p.obj else a, b, c) for a, b, c in s.cl)
                    p = Ptr(xid, p.path, p.arr, p.idx)
                base = Ptr(p.obj, p.path + (('e', p.idx),)) if p.arr else p
                out.extend(self.iterate(s, base, n['var'], n['s'], n))
        res = []
        for kd, s in out:
            for s2 in self.unwind(s, mark, n):
                res.append((X if s2.exc is not None else kd, s2))
        return res

    def iterate(self, st, base, var, body, n):
        iid = ('v', st.depth, ('#it', self.nid(n)))
        st.h[iid] = Obj('var', 0)
        def size(s):
            v = self.getpath(s, self.base(s, base, n).val, base.path, n)
            if isinstance(v, Arr):
                return v.n
            if isinstance(v, Str):
                return slen(v)
            return None
        def cond(s):
            k = size(s)
            i = s.h[iid].val
            if k is None or not is_num(i):
                s.imprecise('range of unknown container')
                return [(s, True), (s.copy(), False)]
            return self.compare(s, '<', i, k, n)
        def fbody(s):
            i = s.h[iid].val
            p = Ptr(base.obj, base.path, True, i) if size(s) is not None else Top('elem')
            t = var['t']
            oid = ('v', s.depth, var['id'])
            out = []
            if t.k == 'ref':
                v = self.getpath(s, self.base(s, base, n).val, base.path, n)
                s.h[oid] = Obj('ref', Ptr(base.obj, base.path + (('e', i),)) if isinstance(v, Arr) else p)
                starts = [s]
            elif t.k == 'rec' and var.get('init') is not None:
                s.h[oid] = Obj('var', self.undef(t))
                starts = []
                pe = Ptr(base.obj, base.path + (('e', i),))
                if t.repo:
                    m = self.P.special(t.q, 'copyctor')
                    for x in self.call_ctor(s, m['key'], t.q, Ptr(oid), [pe], n):
                        if x.exc is None:
                            self.track(x, oid, t)
                        starts.append(x)
                else:
                    self.store(s, Ptr(oid), self.load(s, pe, n), n)
                    starts.append(s)
            else:
                s.h[oid] = Obj('var', self.load(s, p, n, t))
                starts = [s]
            m = len(s.cl) - (1 if starts and starts[0].cl and starts[0].cl[-1][0] == oid else 0)
            if var.get('bind'):
                for x in starts:
                    self.range_bind(var, x, n)
            for x in starts:
                if x.exc is not None:
                    out.append((X, x)); continue
                mk = len(x.cl)
                if x.cl and x.cl[-1][0] == oid:
                    mk -= 1
                for kd, y in self.exec(body, x):
                    for z in self.unwind(y, mk, n):
                        out.append((X if z.exc is not None else kd, z))
            return out
        def inc(s):
            s.h.pop(('v', s.depth, var['id']), None)
            s.h[iid] = Obj('var', add(s.h[iid].val, 1))
            return [s]
        out = []
        for kd, s in self.run_loop(st, cond, fbody, inc, n):
            s.h.pop(iid, None)
            s.h.pop(('v', s.depth, var['id']), None)
            out.append((kd, s))
        return out

    def range_bind(self, var, s, n):
        o = s.h[('v', s.depth, var['id'])]
        p = o.val if o.kind == 'ref' else Ptr(('v', s.depth, var['id']))
        for i, b in enumerate(var['bind']):
            if b.get('b') is not None:
                e = b['b']
                for s2, q in self.ev(e, s):
                    s.h[('v', s.depth, b['id'])] = Obj('ref', q)
            elif b.get('hold') is not None and isinstance(p, Ptr):
                v = self.peek(s, p)
                fld = ['std::pair::first', 'std::pair::second'][i] if i < 2 else None
                if isinstance(v, Rec) and fld in v.f:
                    s.h[('v', s.depth, b['id'])] = Obj('ref', Ptr(p.obj, p.path + (fld,)))

    # -- loops over the characters of a text: summarised as finite-state transducers
    charloops = False

    def char_loop(self, st, cond, body, inc, n):
        """a loop that visits every character of a text once, whose rounds depend only on the character and on a few constants:
        the effect of one round is computed for every character and every value of the constants; None when it is not of that kind"""
        texts = {}
        for oid, o in st.h.items():
            if type(o.val) is Str and oid[0] in ('v', 'x', 't') and any(not isinstance(p, bytes) for p in o.val.p) and not any(isinstance(p, Seg) and p.src[0] == 'in' and p.src[1] in ('$pre', '$post') for p in o.val.p):
                texts.setdefault(o.val, []).append(oid)
        if not texts or not self.simple_loop(n):
            return None
        saved, self.suppress = self.suppress, self.suppress + 1
        g, self.g = self.g, None
        try:
            for T, oids in texts.items():
                try:
                    r = self.char_loop1(st.copy(), cond, body, inc, n, T, oids)
                except (Infeasible, RecursionError):
                    r = None
                if r is not None:
                    return r
        finally:
            self.suppress = saved; self.g = g
        return None

    def break_aware(self, n):
        """the loop tests for line breaks (directly or by a function that gives a number)"""
        k = ('breaks', self.nid(n))
        if k not in self.tables:
            got = False
            todo = [(n, False)]; seen = set()
            while todo and not got:
                x, test = todo.pop()
                if isinstance(x, (list, tuple)):
                    todo.extend((v, test) for v in x)
                elif isinstance(x, dict):
                    kd = x.get('k')
                    if test and x.get('cv') in (10, 13) and x.get('t') is not None and getattr(x['t'], 'k', '') == 'int':
                        got = True
                    if test and kd == 'str' and set(bytes.fromhex(x.get('x') or '')) & BREAKS:
                        got = True
                    f = x.get('fn')
                    if kd in ('call', 'mcall'):
                        nm = (x.get('q') or '').split('::')[-1]
                        test = 'find' in nm or nm.startswith(('str', 'mem', 'regex')) or nm in ('replace', 'replace_if', 'getline', 'compare', 'any_of', 'none_of', 'all_of', 'count', 'remove', 'remove_if', 'transform', 'erase', 'for_each')
                        F = self.P.funcs.get(f)
                        if F is not None and f not in seen and F.get('ret') is not None and F['ret'].noref().k in ('int', 'ptr'):
                            seen.add(f)
                            todo.append((F.get('body'), False))
                    elif kd == 'bin' and x.get('op') in ('==', '!=', '<', '>', '<=', '>=') or kd in ('case', 'lambda'):
                        test = True
                    todo.extend((v, test) for a, v in x.items() if isinstance(v, (dict, list)) and a != 't')
            self.tables[k] = got
        return self.tables[k]

    def simple_loop(self, n):
        k = ('simple', self.nid(n))
        if k in self.tables:
            return self.tables[k]
        ok = True
        todo = [n]
        while todo:
            x = todo.pop()
            if isinstance(x, (list, tuple)):
                todo.extend(x)
            elif isinstance(x, dict):
                kd = x.get('k')
                if kd in ('ret', 'throw', 'goto', 'new', 'delete', 'try', 'mcall', 'call', 'break') :
                    f = self.P.funcs.get(x.get('fn')) if kd in ('call', 'mcall') else None
                    if kd not in ('call', 'mcall') or f is not None and any(p['t'].noref().k not in ('int',) for p in f['params']):
                        ok = False
                        break
                todo.extend(v for a, v in x.items() if isinstance(v, (dict, list)) and a != 't')
        self.tables[k] = ok
        return ok

    def char_loop1(self, st, cond, body, inc, n, T, oids):
        d = st.depth
        frame = [oid for oid in st.h if oid[0] == 'v' and oid[1] == d and oid not in oids]
        def round_(s):
            cs = cond(s)
            if len(cs) != 1 or cs[0][1] is not True or cs[0][0].exc is not None:
                return None
            bo = body(cs[0][0])
            if len(bo) != 1 or bo[0][0] not in (N, C) or bo[0][1].exc is not None:
                return None
            xs = inc(bo[0][1])
            if len(xs) != 1 or xs[0].exc is not None:
                return None
            return xs[0]
        def with_text(s, t):
            for o in oids:
                s.h[o] = s.h[o].with_(val=t)
            return s
        post = Str((Seg(('in', '$post'), 0, src_len(('in', '$post'))),))
        pre = Str((Seg(('in', '$pre'), 0, src_len(('in', '$pre'))),))
        # which variables count the characters
        s0 = with_text(st.copy(), concat(lit('aaa'), post))
        s1 = round_(s0.copy())
        if s1 is None:
            return None
        s2 = round_(s1.copy())
        if s2 is None:
            return None
        idx = []
        for oid in frame:
            v = []
            slots(st.h[oid].val, (), v)
            for path, x in v:
                ys = [getslot(q.h[oid].val, path) if oid in q.h else None for q in (s1, s2)]
                if isinstance(x, int) and not isinstance(x, bool) and x == 0 and ys == [1, 2]:
                    idx.append((oid, path))
        if not idx:
            return None
        n1 = src_len(('in', '$pre'))
        L = slen(T)
        sizes = [oid for oid in frame if is_num(st.h[oid].val) and not isinstance(st.h[oid].val, int) and st.h[oid].val == L]
        def setidx(s, x):
            for oid, path in idx:
                s.h[oid] = s.h[oid].with_(val=setslot(s.h[oid].val, path, x))
        def trial(q, c):
            t = concat(concat(pre, Str((bytes((c,)),))), post)
            s = with_text(st.copy(), t)
            setidx(s, n1)
            for oid in sizes:
                s.h[oid] = s.h[oid].with_(val=slen(t))
            for oid, v in q:
                s.h[oid] = s.h[oid].with_(val=v)
            before = dict(s.h)
            r = round_(s)
            if r is None:
                return None
            nq, outs, wr = {}, {}, None
            for oid, o in before.items():
                if oid not in r.h:
                    if oid[0] == 'v':
                        continue
                    return None
                a, b = o.val, r.h[oid].val
                if a is b or a == b:
                    continue
                if oid in oids:
                    x = b
                    if type(x) is not Str or len(x.p) != 3 or x.p[0] != pre.p[0] or x.p[2] != post.p[0] or not isinstance(x.p[1], bytes) or len(x.p[1]) != 1:
                        return None
                    nq.setdefault('w', {})[oid] = x.p[1]
                    continue
                isx = [path for i, path in idx if i == oid]
                if isx:
                    chk = a
                    for path in isx:
                        chk = setslot(chk, path, add(n1, 1))
                    if chk != b:
                        return None
                elif type(a) is Str and type(b) is Str:
                    k = len(a.p)
                    if len(b.p) < k:
                        return None
                    if k and isinstance(a.p[-1], bytes):
                        if b.p[:k - 1] != a.p[:k - 1] or len(b.p) != k or not isinstance(b.p[-1], bytes) or not b.p[-1].startswith(a.p[-1]):
                            return None
                        outs[oid] = b.p[-1][len(a.p[-1]):]
                    else:
                        if b.p[:k] != a.p or len(b.p) != k + 1 or not isinstance(b.p[-1], bytes):
                            return None
                        outs[oid] = b.p[-1]
                elif is_num(a) and isinstance(b, int):
                    nq.setdefault('c', {})[oid] = b
                else:
                    return None
            return nq.get('c', {}), outs, nq.get('w', {})
        chars = sorted(x for x in str_cs(T)) or [0]
        ctl = set()
        while True:
            q0 = []
            for oid in sorted(ctl, key=str):
                v = st.h[oid].val
                if not isinstance(v, int):
                    return None
                q0.append((oid, int(v)))
            q0 = tuple(q0)
            trans = {}
            todo = [q0]
            grown = False
            while todo and not grown:
                q = todo.pop()
                if len(trans) > 6:
                    return None
                row = []
                trans[q] = row
                for c in chars:
                    r = trial(q, c)
                    if r is None:
                        return None
                    if set(r[0]) - ctl:
                        ctl |= set(r[0]); grown = True
                        break
                    nq = tuple((oid, int(r[0].get(oid, v))) for oid, v in q)
                    row.append((c, nq, r[1], r[2]))
                    if nq not in trans and nq not in todo:
                        todo.append(nq)
            if not grown:
                break
        accs = sorted({o for row in trans.values() for x in row for o in x[2]}, key=str)
        wr = sorted({o for row in trans.values() for x in row for o in x[3]}, key=str)
        num = {q0: 0}
        for q in trans:
            num.setdefault(q, len(num))
        def result(get):
            tab = {}
            for q, row in trans.items():
                for x in row:
                    tab[(num[q], x[0])] = (num[x[1]], get(x))
            return transduce(T, tab, chars)
        R = st
        outs = {}
        for o in accs:
            outs[o] = concat(R.h[o].val, result(lambda x: x[2].get(o, b'')))
        for o in wr:
            outs[o] = result(lambda x: x[3].get(o, bytes((x[0],))))
        setidx(R, L)
        for oid in ctl:
            vs = sorted({dict(q)[oid] for q in trans})
            R.h[oid] = R.h[oid].with_(val=vs[0] if len(vs) == 1 else fresh_iv('ctl', tuple((v, v) for v in vs)))
        for o, t in outs.items():
            R.h[o] = R.h[o].with_(val=t)
        cs = cond(R)
        if any(x.exc is not None or v is not False for x, v in cs):
            return None
        return [(N, x) for x, v in cs]

    def run_loop(self, st0, cond, body, inc, n, do=False, const=False):
        if self.charloops and not do and not const and n.get('k') in ('for', 'while', 'range'):
            r = self.char_loop(st0, cond, body, inc, n)
            if r is not None:
                return r
            if self.break_aware(n):
                # the text may be freed of line breaks in a way that is not understood
                old = {k: o.val for k, o in st0.h.items() if type(o.val) is Str}
                self.charloops = False
                try:
                    res = self.run_loop(st0, cond, body, inc, n, do, const)
                finally:
                    self.charloops = True
                for kd, x in res:
                    for k, o in list(x.h.items()):
                        if type(o.val) is Str and old.get(k) != o.val:
                            x.h[k] = o.with_(val=maybe_raw(o.val))
                return res
        out = []
        cur = [st0]
        it = 0
        first = do
        mixed = 0
        begin = None if do else st0.copy()
        while cur:
            if it >= self.UNROLL or len(cur) > 12:
                break
            nx = []
            indef = []
            verd = set()
            for s in cur:
                save = s.copy()
                if first:
                    cs = [(s, True)]
                else:
                    cs = cond(s)
                    kinds = {v for x, v in cs if x.exc is None}
                    verd |= kinds
                    if len(kinds) > 1:
                        indef.append(save)
                        continue
                if const and not first and it >= 1 or (const and first and False):
                    pass
                bo = []
                for x, v in cs:
                    if x.exc is not None:
                        out.append((X, x))
                    elif not v:
                        out.append((N, x))
                    else:
                        bo.extend(body(x))
                conts = [x for kd, x in bo if kd in (N, C) and x.exc is None]
                exits = [(kd, x) for kd, x in bo if not (kd in (N, C) and x.exc is None)]
                if const and conts and any(x.exc is None for kd, x in exits) and not (self.definite_step(save, bo)):
                    indef.append(save)
                    continue
                for kd, x in exits:
                    out.append((N if kd == B else kd, x))
                for x in conts:
                    nx.extend(inc(x))
            if len(verd) == 2:
                mixed += 1
                if mixed >= 3 and begin is not None and not const:
                    # the number of rounds is decided inside the body: not a fixed number of rounds either
                    return self.abs_loop(begin, cond, body, inc, n, first)
            if indef and it == 1 and begin is not None and not const:
                # one round was certain, the number of rounds is not: treat the loop as a whole
                return self.abs_loop(begin, cond, body, inc, n, first)
            if indef:
                for s in indef:
                    out.extend(self.abs_loop(s, cond, body, inc, n, first))
            first = False
            xs = [x for x in nx if x.exc is not None]
            out.extend((X, x) for x in xs)
            cur = [x for x in nx if x.exc is None]
            if len(cur) > 1:
                cur = self.merge(cur)
            it += 1
        for s in cur:
            out.extend(self.abs_loop(s, cond, body, inc, n, False))
        return self.merge_kinds(out)

    def definite_step(self, s, bo):
        return False

    def merge_kinds(self, outs):
        if len(outs) < 4:
            return outs
        by = {}
        for kd, s in outs:
            by.setdefault((kd, s.exc is not None), []).append(s)
        res = []
        for (kd, e), ss in by.items():
            for s in (self.merge(ss) if len(ss) > 1 else ss):
                res.append((kd, s))
        return res

    def abs_loop(self, st, cond, body, inc, n, first=False):
        out_first = []
        if first:
            # do-while: first body execution is unconditional
            nx = []
            for kd, x in body(st):
                if kd in (N, C) and x.exc is None:
                    nx.extend(inc(x))
                else:
                    out_first.append((N if kd == B else kd, x))
            starts = [x for x in nx if x.exc is None]
            out_first += [(X, x) for x in nx if x.exc is not None]
            if len(starts) > 1:
                starts = self.merge(starts)
            res = out_first
            for s in starts:
                res = res + self.abs_loop(s, cond, body, inc, n, False)
            return res

        def step(s):
            backs, exits = [], []
            for x, v in cond(s):
                if x.exc is not None:
                    exits.append((X, x)); continue
                if not v:
                    exits.append((N, x)); continue
                for kd, y in body(x):
                    if kd in (N, C) and y.exc is None:
                        for z in inc(y):
                            if z.exc is not None:
                                exits.append((X, z))
                            else:
                                backs.append(z)
                    else:
                        exits.append((N if kd == B else kd, y))
            return backs, exits

        if self.g is not None:
            self.g.normalise(self, st)
        st.canon(self.leak)
        # trial iteration: find slots moving by a constant
        self.suppress += 1
        try:
            backs, _ = step(st.copy())
        finally:
            self.suppress -= 1
        k = fresh('k', 0, MAXLEN)
        ks = k.t[0][0]
        if backs:
            self.induct(st, backs, k)
        st.cons[ks] = ((0, 0),)
        heads = {}
        cnt = {}
        exits = {}
        work = []
        key0 = st.key()
        heads[key0] = st; cnt[key0] = 0
        work.append(key0)
        rounds = 0
        order = [key0]
        while work:
            key = work.pop(0)
            H = heads[key]
            rounds += 1
            if rounds > 60:
                st2 = H
                st2.imprecise('loop did not stabilise')
                self.undec(st2, 'loop did not stabilise', n)
                break
            if self.dbg is not None:
                self.dbg(self, H, heads, rounds, cnt[key], n)
            backs, ex = step(H.copy())
            exits[key] = ex
            for S in backs:
                kb = ks
                if ks not in S.cons and S.cons.get(ks) is None:
                    S.cons[ks] = H.cons.get(ks, SYMS[ks].nat)
                fold(H, S, ks)
                iv = S.cons.pop(ks, SYMS[ks].nat)
                S.substitute({ks: Lin(-1, ((ks, 1),))})
                S.cons[ks] = tuple((a + 1, min(b + 1, MAXLEN)) for a, b in iv)
                if self.g is not None:
                    self.g.normalise(self, S)
                self.const_lo(S, ks)
                S.canon(self.leak)
                if ks not in S.cons and False:
                    pass
                key2 = S.key()
                if key2 not in heads:
                    if len(heads) >= 40:
                        self.undec(S, 'too many loop states', n)
                        continue
                    heads[key2] = S; cnt[key2] = 0
                    order.append(key2)
                    work.append(key2)
                    continue
                A = heads[key2]
                cnt[key2] += 1
                try:
                    J, j = join(A, S, cnt[key2] >= 3)
                except NoJoin:
                    S.imprecise('unjoinable loop state')
                    self.undec(S, 'unjoinable loop state', n)
                    continue
                if j.stable(J):
                    continue
                J.canon(self.leak)
                if cnt[key2] > 14:
                    self.undec(J, 'loop widening limit', n)
                    continue
                heads[key2] = J
                if key2 not in work:
                    work.append(key2)
        res = []
        for key in order:
            res.extend(exits.get(key, []))
        return res

    def const_lo(self, S, ks):
        """replace linear terms in a loop counter that has one possible value"""
        iv = S.cons.get(ks)
        if iv and iv[0][0] == iv[-1][1] and iv[0][0] <= 1:
            pass

    def induct(self, st, backs, k):
        for oid in list(st.h):
            o = st.h[oid]
            if oid[0] == 'S' and False:
                continue
            if o.fam:
                continue
            olds = []
            slots(o.val, (), olds)
            if not olds:
                continue
            upd = {}
            for path, v in olds:
                ds = set()
                for b in backs:
                    ob = b.h.get(oid)
                    nv = getslot(ob.val, path) if ob is not None else None
                    if nv is None or not is_num(nv) or isinstance(nv, bool):
                        ds.add(None); break
                    d = sub(nv, v)
                    ds.add(d if isinstance(d, int) else None)
                if len(ds) == 1:
                    d = ds.pop()
                    if d:
                        upd[path] = add(v, mulc(k, d))
            if upd:
                val = o.val
                for path, nv in upd.items():
                    val = setslot(val, path, nv)
                st.h[oid] = o.with_(val=val)


def slots(v, path, out):
    t = type(v)
    if t is Lin or t is int:
        out.append((path, v))
    elif t is Rec:
        for f, x in v.f.items():
            slots(x, path + (('f', f),), out)
    elif t is Ptr:
        if v.arr:
            out.append((path + (('idx',),), v.idx))
        if v.path and isinstance(v.path[-1], tuple) and v.path[-1][0] == 'e':
            out.append((path + (('pe',),), v.path[-1][1]))
        if v.obj[0] == 'F':
            out.append((path + (('fi',),), v.obj[2]))
    elif t is Arr:
        out.append((path + (('n',),), v.n))


def getslot(v, path):
    for p in path:
        if p[0] == 'f':
            if not isinstance(v, Rec):
                return None
            v = v.f.get(p[1])
        elif p[0] == 'idx':
            if not isinstance(v, Ptr) or not v.arr:
                return None
            v = v.idx
        elif p[0] == 'pe':
            if not isinstance(v, Ptr) or not v.path or not isinstance(v.path[-1], tuple):
                return None
            v = v.path[-1][1]
        elif p[0] == 'fi':
            if not isinstance(v, Ptr) or v.obj[0] != 'F':
                return None
            v = v.obj[2]
        elif p[0] == 'n':
            if not isinstance(v, Arr):
                return None
            v = v.n
    return v


def setslot(v, path, nv):
    if not path:
        return nv
    p = path[0]
    if p[0] == 'f':
        return v.with_(p[1], setslot(v.f[p[1]], path[1:], nv))
    if p[0] == 'idx':
        return Ptr(v.obj, v.path, True, nv)
    if p[0] == 'pe':
        return Ptr(v.obj, v.path[:-1] + (('e', nv),), v.arr, v.idx)
    if p[0] == 'fi':
        return Ptr(('F', v.obj[1], nv), v.path, v.arr, v.idx)
    if p[0] == 'n':
        return Arr(nv, v.lo, v.hi, v.tmpl, v.ex, v.kind)
    return v


def cs_iv(cs):
    return iv_norm([((c - 256 if c > 127 else c),) * 2 for c in cs]) or ((-128, 127),)


def maybe_raw(t):
    def f(p):
        if isinstance(p, Unk) and any(isinstance(x, tuple) and x[0] == 'raw' for x in p.tags):
            return Unk(p.id, p.n, frozenset(('maybe', x[1]) if isinstance(x, tuple) and x[0] == 'raw' else x for x in p.tags), p.cs)
        if isinstance(p, Rep):
            return Rep(tuple(maybe_raw(a) for a in p.alts), p.lo, p.hi)
        return p
    ps = tuple(map(f, t.p))
    return t if ps == t.p else Str(ps)


CHTAGS = {}          # symbols of characters read from texts -> tags of the texts


def fresh_iv(name, iv):
    f = fresh(name, iv[0][0], iv[-1][1])
    SYMS[f.t[0][0]].nat = iv
    return f
