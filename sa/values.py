"""Life-cycle analysis of the library's objects: every public constructor, copy, move, assignment, setter and destructor
is interpreted over symbolic inputs in every order that matters, and what the getters show before and after is compared."""
import re
from .dom import *
from .state import *
from .interp import Infeasible, Budget, N, X, STRCLS
from .harness import Env
from . import models

CLIENT = 'jed_utils::SMTPClientBase'
NUL = '(null)'


class Finding:
    def __init__(self, rule, msg, fn, file, line, trace=()):
        self.rule = rule; self.msg = msg; self.fn = fn; self.file = file; self.line = line; self.trace = trace


def fn_of(P, key):
    f = P.funcs.get(key)
    if f is None:
        m = P.method_by_key.get(key, {})
        return (m.get('n', '?'), '?', None)
    return (f['q'], f['file'], f['line'])


# ---------------------------------------------------------------- observations
def deep(I, st, v, depth=0, seen=()):
    """content of a value with object identities removed"""
    t = type(v)
    if t is Ptr:
        if depth > 8:
            return '...'
        o = v.obj
        if o[0] == 'L':
            return ('str', I.cut(st, o[1], v.idx)[1] if v.idx != 0 else o[1])
        if o[0] == 'F':
            ob = I.base(st, v, None)
            x = ob.val if ob is not None else UNDEF
        else:
            ob = st.h.get(o)
            if ob is None or ob.status != 'alive':
                return 'dangling'
            x = ob.val
        x = I.getpath(st, x, v.path, None)
        if v.arr and type(x) is CBuf:
            if x.txt is None or not x.term:
                return ('raw', x.txt)
            return ('str', I.norm(st, I.cut(st, x.txt, v.idx)[1]))
        if type(x) is CBuf:
            return ('str', I.norm(st, x.txt) if x.txt is not None else None)
        return ('&', deep(I, st, x, depth + 1))
    if t is Rec:
        return ('rec', v.cls, tuple((k, deep(I, st, v.f[k], depth + 1)) for k in sorted(v.f, key=str)))
    if t is Arr:
        return ('arr', v.n, v.lo, v.hi, None if v.tmpl is None else deep(I, st, v.tmpl, depth + 1), tuple((k, deep(I, st, x, depth + 1)) for k, x in v.ex))
    if t is Str:
        return ('str', I.norm(st, v))
    if t is CBuf:
        return ('str', I.norm(st, v.txt) if v.txt is not None else None)
    if v is NULL:
        return NUL
    return v


def vague(v):
    """content the analysis does not know exactly (comparing it would prove nothing)"""
    if isinstance(v, Top):
        return True
    if isinstance(v, Str):
        return any(isinstance(p, Unk) for p in v.p)
    if isinstance(v, tuple):
        return any(vague(x) for x in v)
    return False


def nothing(st, v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == '&' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'arr' and st.const(v[1][1]) == 0


def throws(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 'throws'


def same(I, st, a, b):
    """True / False / None (cannot tell)"""
    if a == b:
        return True
    if isinstance(a, Top) or isinstance(b, Top):
        return None
    if a == NUL and nothing(st, b) or b == NUL and nothing(st, a):
        return True     # no list and an empty list are the same to the caller, who has the count
    if is_num(a) and is_num(b):
        if st.eq(a, b):
            return True
        return False if I.exact(st, a, b) else None
    if type(a) is Str and type(b) is Str:
        return same_str(I, st, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            if a and b and a[0] == 'arr' == b[0]:
                return None
            return False
        if a and a[0] == 'arr' and b[0] == 'arr':
            return same_arr(I, st, a, b)
        r = True
        for x, y in zip(a, b):
            q = same(I, st, x, y)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    if type(a) is not type(b) and (isinstance(a, (tuple, Str)) and isinstance(b, (tuple, Str))):
        return False
    return False


def same_arr(I, st, a, b):
    if not (st.eq(a[1], b[1])):
        return False if I.exact(st, a[1], b[1]) else None
    def cover(x):
        return x[4] is None and not x[5] or not x[5]
    if a[4] is not None and b[4] is not None and not a[5] and not b[5]:
        la = (st.eq(a[2], 0) and st.eq(a[3], a[1])); lb = st.eq(b[2], 0) and st.eq(b[3], b[1])
        if la and lb:
            # an empty range has no elements to differ
            if st.const(a[1]) == 0:
                return True
            return same(I, st, a[4], b[4])
        return None
    if a[4] is None and b[4] is None and len(a[5]) == len(b[5]):
        return same(I, st, a[5], b[5])
    if st.const(a[1]) == 0:
        return True
    # one side explicit, the other a template
    def at(x, i):
        for k, v in x[5]:
            if st.eq(k, i):
                return v
        if x[4] is not None:
            return Subst({IDXSYM: i}).any(x[4])
        return None
    c = st.const(a[1])
    if c is not None and c <= 8:
        r = True
        for i in range(c):
            q = same(I, st, at(a, i), at(b, i))
            if q is False:
                return False
            if q is None:
                r = None
        return r
    return None


def same_str(I, st, a, b):
    if a == b:
        return True
    a = I.norm(st, a); b = I.norm(st, b)
    if a == b:
        return True
    if len(a.p) == len(b.p):
        ok = True
        for x, y in zip(a.p, b.p):
            if x == y:
                continue
            if isinstance(x, Seg) and isinstance(y, Seg) and x.src == y.src and st.eq(x.off, y.off) and st.eq(x.n, y.n):
                continue
            ok = False
        if ok:
            return True
    if any(isinstance(p, (Unk, Rep)) for p in a.p + b.p) or not I.exact(st, a, b):
        return None
    # both could be empty for a shared reason
    if st.const(slen(a)) == 0 and st.const(slen(b)) == 0:
        return True
    return False


def show(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + '...'


class Lives:
    """life-cycle scenarios for one class"""

    def __init__(self, P, cls, ghost=None):
        self.P = P; self.cls = cls
        self.E = Env(P, ghost)
        self.I = self.E.I
        self.findings = []      # content rules
        self.checked = {}
        self.unsure = {}
        self.skipped = []
        self.rejecting = {}     # (method key) -> number of rejecting paths seen
        self.nobj = 0
        self.vague = 0
        self.scen = 0
        self.client = P.derives(cls, CLIENT)

    # ---- reporting
    def count(self, rule):
        self.checked[rule] = self.checked.get(rule, 0) + 1

    def bad(self, st, rule, msg, key, sure=True):
        q, file, line = fn_of(self.P, key)
        if st.approx or not sure:
            self.unsure[(rule, q, msg[:80])] = st.approx or 'not provable'
            return
        for f in self.findings:
            if f.rule == rule and f.fn == q and f.msg == msg:
                return
        self.findings.append(Finding(rule, msg, q, file, line, st.notes()))

    # ---- inputs
    def arg_sets(self, key, tag):
        """variants of argument builders for the function: list of lists of (param, mode)"""
        f = self.P.funcs.get(key)
        m = self.P.method_by_key.get(key)
        pts = m['pt'] if m else [p['t'] for p in f['params']]
        names = [p['n'] for p in f['params']] if f else ['p%d' % i for i in range(len(pts))]
        base = []
        opts = []
        i = 0
        for i, (t, nm) in enumerate(zip(pts, names)):
            nt = pts[i + 1] if i + 1 < len(pts) else None
            kind = self.kind(t, nm, nt, names[i + 1] if i + 1 < len(pts) else '')
            if kind is None:
                return None
            prev = base[i - 1][0] if i else None
            if kind == 'num' and prev == 'objs':
                kind = 'cnt'
            base.append((kind, t, nm or 'p%d' % i))
            if kind in ('obj*', 'objs') or kind == 'cstr' and self.null_ok(key):
                opts.append(i)
        sets = [[(k, t, nm, 'set') for k, t, nm in base]]
        for i in opts:
            v = [(k, t, nm, 'set') for k, t, nm in base]
            v[i] = v[i][:3] + ('null',)
            if base[i][0] == 'objs' and i + 1 < len(v):
                v[i + 1] = v[i + 1][:3] + ('any',)
            sets.append(v)
        if any(k in ('objs', 'vec&') for k, _, _ in base):
            v = [(k, t, nm, 'none' if k in ('objs', 'vec&') else 'zero' if k == 'cnt' else 'set') for k, t, nm in base]
            sets.append(v)
            first = True
            v = []
            for k, t, nm in base:
                md = 'set'
                if k in ('objs', 'vec&'):
                    md = 'set' if first else 'none'; first = False
                elif k == 'cnt':
                    md = 'set' if v[-1][3] == 'set' else 'zero'
                v.append((k, t, nm, md))
            if v not in sets:
                sets.append(v)
        if len(opts) > 1:
            v = [(k, t, nm, 'set') for k, t, nm in base]
            for i in opts:
                if base[i][0] in ('obj*', 'objs'):
                    v[i] = v[i][:3] + ('null',)
                    if base[i][0] == 'objs':
                        v[i + 1] = v[i + 1][:3] + ('zero',)
            if v not in sets:
                sets.append(v)
        return sets

    # Functions documented (and tested) to accept or reject a null string; everywhere else a null pointer is caller misuse
    NULL_OK = ('jed_utils::Credential', 'jed_utils::SMTPClientBase', 'jed_utils::Message')

    def null_ok(self, key):
        f = self.P.funcs.get(key) or self.P.method_by_key.get(key) or {}
        c = f.get('cls')
        return c is not None and not c.startswith('jed_utils::cpp::') and any(c == x or self.P.derives(c, x) for x in self.NULL_OK)

    def kind(self, t, nm, nt, nn):
        if t.is_ptr():
            if t.to.ch:
                return 'cstr'
            if t.to.k == 'rec' and t.to.repo and not t.to.is_ptr():
                if nt is not None and nt.k == 'int' and not nt.bool and re.search('count|size|nb|num|len', nn, re.I):
                    return 'objs'
                return 'obj*'
            return None
        if t.k == 'ref':
            x = t.to
            if x.k == 'rec' and x.q in STRCLS:
                return 'str&'
            if x.k == 'rec' and x.q == 'std::vector':
                return 'vec&'
            if x.k == 'rec' and x.repo:
                return 'obj&'
            return None
        if t.k == 'int':
            if t.enum:
                return 'enum'
            return 'bool' if t.bool else 'num'
        if t.k == 'rec' and t.q in STRCLS:
            return 'str'
        if t.k == 'rec' and t.q == 'std::basic_string_view':
            return 'strv'
        return None

    def mrg(self, rows):
        """merge the states of rows (state first, the rest equal) that have the same shape"""
        if len(rows) < 2:
            return rows
        by = {}
        for r in rows:
            by.setdefault(repr(r[1:]), []).append(r)
        out = []
        for rs in by.values():
            for s in self.I.merge([r[0] for r in rs]) if len(rs) > 1 else [rs[0][0]]:
                out.append((s,) + tuple(rs[0][1:]))
        return out

    def build(self, st, spec, tag):
        """-> [(state, [values], [(loc, cls or array)])] ; the caller's own objects are returned for destruction"""
        cur = [(st, [], [])]
        for i, (k, t, nm, mode) in enumerate(spec):
            nx = []
            for s, vs, own in cur:
                if k == 'cnt' and mode == 'set':
                    nx.append((s, vs + [self.count_of(tag + '.' + spec[i - 1][2])], own))
                    continue
                nx.extend(self.build1(s, vs, own, k, t, nm, mode, tag))
            cur = self.mrg(nx)
        return cur

    def build1(self, s, vs, own, k, t, nm, mode, tag):
        E = self.E
        name = tag + '.' + nm
        if mode == 'null':
            return [(s, vs + [NULL], own)]
        if mode == 'any':
            return [(s, vs + [sym(('anycnt', tag, nm), 0, MAXLEN)], own)]
        if mode == 'zero':
            return [(s, vs + [0], own)]
        if mode == 'blank':
            src = ('in', name + ' (blank)')
            CHARSETS[src] = SPACES
            if k == 'cstr':
                return [(s, vs + [E.cstr(s, name + '#b', src=src)], own)]
            if k == 'str&':
                return [(s, vs + [E.sstr(s, name + '#b', full(src))], own)]
            oid = ('t', 0, name + '#b'); s.h[oid] = Obj('tmp', full(src))
            return [(s, vs + [Ptr(oid)], own)]
        if mode == 'empty':
            if k == 'cstr':
                return [(s, vs + [E.cstr(s, name + '#e', txt=EMPTY)], own)]
            if k == 'str&':
                return [(s, vs + [E.sstr(s, name + '#e', EMPTY)], own)]
            oid = ('t', 0, name + '#e'); s.h[oid] = Obj('tmp', EMPTY)
            return [(s, vs + [Ptr(oid)], own)]
        if isinstance(mode, tuple) and mode[0] == 'val':
            return [(s, vs + [mode[1]], own)]
        if k == 'cstr':
            return [(s, vs + [E.cstr(s, name)], own)]
        if k == 'str&':
            return [(s, vs + [E.sstr(s, name)], own)]
        if k in ('str', 'strv'):
            oid = ('t', 0, name)
            s.h[oid] = Obj('tmp', full(('in', name)))
            return [(s, vs + [Ptr(oid)], own)]
        if k == 'enum':
            e = self.P.enums.get(t.enum) if t.enum is not True else None
            vals = [x['v'] for x in (e or {}).get('values', [])] if e else []
            lo, hi = (min(vals), max(vals)) if vals else (0, 3)
            return [(s, vs + [sym(('inp', name), lo, hi)], own)]
        if k == 'bool':
            return [(s, vs + [sym(('inp', name), 0, 1)], own)]
        if k == 'num':
            r = t.rng()
            return [(s, vs + [sym(('inp', name), r[0], r[1])], own)]
        if k in ('obj&', 'obj*'):
            q = (t.to).q
            out = []
            for s2, p in self.make(s, q, name):
                if p is not None:
                    out.append((s2, vs + [p], own + [(p, q)]))
            return out
        if k in ('objs', 'vec&'):
            q = t.to.q if k == 'objs' else (t.to.ta[0].q if t.to.ta[0].k == 'rec' else None)
            if q is None:
                return []
            out = []
            for s2, p in self.make_array(s, q, name, 'vec' if k == 'vec&' else 'arr', mode == 'none'):
                out.append((s2, vs + [Ptr(p.obj, (), True, 0) if k == 'objs' else p], own + [(p, ('[]', q))]))
            return out
        return []

    def concrete(self, q):
        """class to instantiate for a parameter of class q"""
        r = self.P.records.get(q)
        if r is None:
            return None
        if not r.get('abstract'):
            return q
        for c in sorted(self.P.records):
            if c != q and self.P.derives(c, q) and not self.P.records[c].get('abstract'):
                return c
        return None

    def make(self, st, q, tag, elem=None):
        """a fully populated object of class q built through its first public constructor; rejected inputs are dropped"""
        q = self.concrete(q)
        for m in self.E.ctors(q):
            if m.get('copy') or m.get('move'):
                continue
            sets = self.arg_sets(m['key'], tag)
            if not sets:
                continue
            out = []
            for s, vs, own in self.build(st, sets[0], tag):
                for s2, p in self.E.construct(s, q, m['key'], tag, vs):
                    if s2.exc is None:
                        cur = [s2]
                        for loc, c in own:
                            cur = [y for x in cur for y in self.drop(x, loc, c)]
                        out.extend((x, p) for x in cur)
            return self.mrg(out)
        return []

    def count_of(self, tag):
        return sym(('cnt', tag), 1, MAXLEN)

    def make_array(self, st, q, tag, kind, empty=False):
        """an array of n > 0 (or no) objects of class q; element i holds its own texts"""
        I = self.I
        n = 0 if empty else self.count_of(tag)
        oid = ('v', 0, tag)
        if empty:
            st.h[oid] = Obj('var', Arr(0, 0, 0, None, (), kind))
            return [(st, Ptr(oid))]
        st.h[oid] = Obj('var', Arr(n, 0, 0, None, (), kind))
        ctor = None
        for m in self.E.ctors(q):
            if not (m.get('copy') or m.get('move')) and self.arg_sets(m['key'], tag):
                ctor = m; break
        if ctor is None:
            return []
        spec = self.arg_sets(ctor['key'], tag)[0]
        def body(s, i):
            vs = []
            for k, t, nm, mode in spec:
                if k in ('cstr', 'str&', 'str'):
                    src = ('el', tag, i, nm)
                    if k == 'cstr':
                        e = ('t', 0, '$' + tag + nm)
                        s.h[e] = Obj('ext', CBuf(add(src_len(src), 1), full(src), True))
                        vs.append(Ptr(e, (), True, 0))
                    else:
                        e = ('t', 0, '$' + tag + nm)
                        s.h[e] = Obj('tmp', full(src))
                        vs.append(Ptr(e))
                elif k in ('enum', 'bool', 'num'):
                    vs.append(0)
                else:
                    vs.append(NULL)
            loc = Ptr(oid, (('e', i),))
            a = s.h[oid].val
            s.h[oid] = Obj('var', Arr(a.n, a.lo, a.hi, a.tmpl, a.ex + ((i, I.undef_rec(q)),), a.kind))
            nd = self.E.node(ctor['key'])
            out = []
            for x in I.call_ctor(s, ctor['key'], q, loc, vs, nd):
                for k in [k for k in x.h if k[0] == 't' and k[1] == 0]:
                    del x.h[k]
                if x.exc is None:
                    out.append(x)
            return out
        return self.mrg([(s, Ptr(oid)) for s in self.E.loop(st, n, body) if s.exc is None])

    def drop(self, st, loc, c):
        """destroy an object of the caller -> states"""
        if isinstance(c, tuple):
            v = st.h[loc.obj].val
            n = self.E.node(None)
            out = []
            for s in self.I.destroy_elems(st, loc, self.rec_type(c[1]), v, n):
                s.h.pop(loc.obj, None)
                out.append(s)
            return out
        v = self.I.peek(st, loc)
        cls = v.cls if isinstance(v, Rec) and v.cls in self.P.records else c
        return self.E.destroy(st, loc, cls)

    def rec_type(self, q):
        for t in self.P.types.values():
            if t.k == 'rec' and t.q == q and not t.const:
                return t
        raise KeyError(q)

    # ---- observation through the public getters
    def getters(self, cls=None):
        out = []
        for c, m in self.E.methods(cls or self.cls):
            if m['np'] == 0 and m.get('const') and m['ret'] is not None and m['ret'].k != 'void' and not m.get('static'):
                if m['n'] in self.skip_getters:
                    continue
                out.append((c, m))
        return out

    skip_getters = {'getBase64EncodedFile', 'getCommunicationLog'}

    def observe(self, st, loc, cls=None, only=None):
        """-> [(state, {getter: content})]"""
        cur = [(st, {})]
        for c, m in self.getters(cls):
            if only is not None and m['n'] not in only:
                continue
            nx = []
            for s, obs in cur:
                for s2, v in self.E.call(s, loc, m['key'], []):
                    o = dict(obs)
                    if s2.exc is not None:
                        o[m['n']] = ('throws', s2.exc.cls); s2.exc = None
                        s2.h.pop(('v', 0, '$ret'), None)
                    else:
                        r = m['ret']
                        try:
                            if r.k == 'rec' and v is not VOID and isinstance(v, Ptr):
                                x = self.I.peek(s2, v)
                                o[m['n']] = deep(self.I, s2, x)
                            else:
                                o[m['n']] = deep(self.I, s2, v)
                        except Infeasible:
                            o[m['n']] = 'unreadable'
                    x = s2.h.pop(('v', 0, '$ret'), None)
                    if x is not None and isinstance(x.val, Rec) and x.val.cls in self.P.records and self.I.is_repo_cls(x.val.cls):
                        # an object returned by value is the caller's
                        s2.h[('v', 0, '$ret')] = x
                        for s3 in self.drop(s2, Ptr(('v', 0, '$ret')), x.val.cls):
                            nx.append((s3, dict(o)))
                        continue
                    nx.append((s2, o))
            cur = nx
            if len(cur) > 24:
                cur = cur[:24]
        return cur

    def compare_obs(self, st, rule, a, b, key, what, skip=()):
        for g in a:
            if g in skip:
                continue
            if vague(a[g]) or throws(a[g]) != throws(b.get(g)):
                # the argument checks of a conversion are not tied to the outcome they had the first time
                self.vague = self.vague + 1
                continue
            self.count(rule)
            r = same(self.I, st, a[g], b.get(g))
            if r is not True:
                self.bad(st, rule, '%s: %s() gives %s instead of %s' % (what, g, show(b.get(g)), show(a[g])), key, r is False)

    # ---- scenarios
    def objects(self, tag='a', full_only=False):
        """[(state, loc, [caller-owned things])] for every public constructor variant; also reports throwing paths"""
        out = []
        for m in self.E.ctors(self.cls):
            if m.get('copy') or m.get('move'):
                continue
            sets = self.arg_sets(m['key'], tag)
            if sets is None:
                self.skipped.append(m['key']); continue
            vout = []
            for spec in sets[:1] if full_only else sets:
                for s, vs, own in self.build(self.E.start(), spec, tag):
                    for s2, p in self.E.construct(s, self.cls, m['key'], 'o' + tag, vs):
                        cur = [s2]
                        if s2.exc is not None:
                            s2.exc = None
                            for loc, c in own:
                                cur = [y for x in cur for y in self.drop(x, loc, c)]
                            for x in cur:
                                self.E.finish(x)
                            continue
                        for loc, c in own:
                            cur = [y for x in cur for y in self.drop(x, loc, c)]
                        for x in cur:
                            vout.append((x, p, m['key']))
            out.extend(self.mrg(vout))
        self.nobj += len(out)
        return out

    def done(self, st, locs):
        self.scen += 1
        cur = [st]
        for loc in locs:
            cur = [y for x in cur for y in self.drop(x, loc, self.cls)]
        for x in cur:
            self.E.finish(x)

    def second(self, st, tag='b'):
        return [(s, p) for s, p in self.make(st, self.cls, tag)]

    def assign(self, st, key, to, frm):
        return [s for s, v in self.E.call(st, to, key, [frm])]

    def guard(self, f, *a):
        try:
            f(*a)
        except Infeasible:
            pass
        except Budget:
            self.unsure[('budget', f.__name__)] = 'analysis budget exceeded'
        except (KeyError, TypeError, AttributeError, IndexError, RecursionError, ValueError) as e:
            import traceback, os
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.unsure[('internal', f.__name__, type(e).__name__ + ': ' + str(e)[:80])] = 'analysis error'

    def run(self, parts=('basic', 'copy', 'move', 'set', 'alias', 'reject')):
        objs = self.objects()
        for st, p, key in objs:
            self.guard(self.done, st.copy(), [p])
        for part in parts:
            for i, (st, p, key) in enumerate(objs):
                self.guard(getattr(self, 'part_' + part), st, p, key, i)

    def part_basic(self, st, p, key, i):
        """every public method once (twice for the modifying ones), then destruction"""
        for c, m in self.E.methods(self.cls):
            if self.skip_method(m):
                continue
            if m['np'] and i and not self.P.records[self.cls].get('small'):
                if i > 2:
                    continue
            if m.get('static') and i:
                continue
            self.guard(self.one_method, st, p, m)

    def skip_method(self, m):
        f = self.P.funcs.get(m['key'])
        if f is not None and any(a['t'].is_ptr() and a['t'].to is not None and a['t'].to.ch and not a['t'].to.const for a in f['params']):
            return True         # a buffer to fill: decided for its size under C29
        return m['n'] in ('sendMail',) or (m['n'].startswith('operator') and m['n'] != 'operator basic_string')

    def one_method(self, st, p, m):
        sets = self.arg_sets(m['key'], 'm')
        if sets is None:
            self.skipped.append(m['key']); return
        for spec in sets:
            for s, vs, own in self.build(st.copy(), spec, 'm'):
                for s2, v in self.E.call(s, p, m['key'], vs):
                    thrown = s2.exc is not None
                    s2.exc = None
                    if thrown:
                        s2.h.pop(('v', 0, '$ret'), None)
                    starts = [(s2, v)]
                    if not thrown and not m.get('const') and not m.get('static'):
                        # once more with other values
                        starts = []
                        x = s2.h.pop(('v', 0, '$ret'), None)
                        if x is not None and isinstance(x.val, Rec) and x.val.cls in self.P.records and self.I.is_repo_cls(x.val.cls):
                            s2.h[('v', 0, '$ret')] = x
                            s2 = self.drop(s2, Ptr(('v', 0, '$ret')), x.val.cls)[0]
                        for s3, vs3, own3 in self.build(s2, spec, 'm2'):
                            for s4, v4 in self.E.call(s3, p, m['key'], vs3):
                                if s4.exc is not None:
                                    s4.h.pop(('v', 0, '$ret'), None)
                                s4.exc = None
                                cur = [s4]
                                for loc, c in own3:
                                    cur = [y for x in cur for y in self.drop(x, loc, c)]
                                starts.extend((x, v4) for x in cur)
                    for s5, v5 in starts:
                        self.result(s5, p, m, v5, own)

    def result(self, st, p, m, v, own):
        """dispose of what a call returned, then of everything else"""
        cur = [st]
        x = st.h.get(('v', 0, '$ret'))
        if x is not None and isinstance(x.val, Rec) and x.val.cls in self.P.records and self.I.is_repo_cls(x.val.cls):
            cur = self.drop(st, Ptr(('v', 0, '$ret')), x.val.cls)
        elif isinstance(v, Ptr) and v.obj[0] == 'h' and m['ret'] is not None and m['ret'].is_ptr() and not self.reaches(st, v.obj):
            # memory handed over to the caller
            ob = st.h.get(v.obj)
            if ob is not None:
                cur = self.I.delete_ptr(st, v, m['ret'].to, {'l': None}, ob.kind == 'new[]')
        for s in cur:
            for loc, c in own:
                for y in self.drop(s, loc, c):
                    s = y
            self.done(s, [p])

    def reaches(self, st, oid):
        """oid referenced from an object other than the result"""
        for k, o in st.h.items():
            if k == ('v', 0, '$ret'):
                continue
            if oid in ptr_targets(o.val):
                return True
        return False

    def part_copy(self, st, p, key, i):
        cls = self.cls
        cc = self.E.special(cls, 'copyctor'); ca = self.E.special(cls, 'copyassign')
        if cc and cc['acc'] == 'public':
            for s, before in self.observe(st.copy(), p):
                for s2, c in self.E.construct(s, cls, cc['key'], 'c', [p]):
                    if c is None:
                        s2.exc = None; continue
                    if i == 0:
                        self.guard(self.independent, s2.copy(), p, c, before, cc['key'])
                    for s3, after in self.observe(s2, c):
                        self.compare_obs(s3, 'copy', before, after, cc['key'], 'copy constructor')
                        # independence: the source goes away first, the copy must still be readable
                        for s4 in self.drop(s3.copy(), p, cls):
                            for s5, later in self.observe(s4, c):
                                self.compare_obs(s5, 'copy', before, later, cc['key'], 'copy after the source was destroyed')
                                self.done(s5, [c])
                        self.done(s3, [c, p])
        if ca and ca['acc'] == 'public':
            for s, before in self.observe(st.copy(), p):
                for s1, q in self.second(s):
                    for s2 in self.assign(s1, ca['key'], q, p):
                        if s2.exc is not None:
                            continue
                        for s3, after in self.observe(s2, q):
                            self.compare_obs(s3, 'copy', before, after, ca['key'], 'copy assignment')
                            for s4, src in self.observe(s3, p):
                                self.compare_obs(s4, 'copy', before, src, ca['key'], 'source of a copy assignment')
                                for s5 in self.drop(s4, p, cls):
                                    for s6, later in self.observe(s5, q):
                                        self.compare_obs(s6, 'copy', before, later, ca['key'], 'copy after the source was destroyed')
                                        self.done(s6, [q])
                # self assignment
                for s2 in self.assign(s.copy(), ca['key'], p, p):
                    if s2.exc is not None:
                        continue
                    for s3, after in self.observe(s2, p):
                        self.compare_obs(s3, 'copy', before, after, ca['key'], 'self assignment')
                        self.done(s3, [p])

    def setters(self):
        return [(c, m) for c, m in self.E.methods(self.cls) if m['n'].startswith('set') and m['np'] and not m.get('const') and not m.get('static')]

    def independent(self, st, p, c, before, key):
        """changing the source through its setters leaves the copy alone, and the other way round"""
        for _, m in self.setters():
            sets = self.arg_sets(m['key'], 'x')
            if not sets:
                continue
            for src, other in ((p, c), (c, p)):
                for s, vs, own in self.build(st.copy(), sets[0], 'x'):
                    for s2, v in self.E.call(s, src, m['key'], vs):
                        if s2.exc is not None:
                            continue
                        for s3, after in self.observe(s2, other):
                            self.compare_obs(s3, 'copy', before, after, key, 'object copied, then %s() called on the other one' % m['n'])

    def part_move(self, st, p, key, i):
        cls = self.cls
        mc = self.E.special(cls, 'movector'); ma = self.E.special(cls, 'moveassign')
        ca = self.E.special(cls, 'copyassign')
        for s, before in self.observe(st.copy(), p):
            if mc and mc['acc'] == 'public':
                for s2, c in self.E.construct(s.copy(), cls, mc['key'], 'c', [p]):
                    if c is None:
                        continue
                    for s3, after in self.observe(s2, c):
                        self.compare_obs(s3, 'move', before, after, mc['key'], 'move constructor')
                        self.done(s3.copy(), [p, c])
                        # the moved-from object is assigned again and used
                        if ca and ca['acc'] == 'public':
                            for s4, q in self.second(s3.copy()):
                                for s5, want in self.observe(s4, q):
                                    for s6 in self.assign(s5, ca['key'], p, q):
                                        if s6.exc is not None:
                                            continue
                                        for s7, got in self.observe(s6, p):
                                            self.compare_obs(s7, 'move', want, got, mc['key'], 'moved-from object assigned again')
                                            for s8, still in self.observe(s7, c):
                                                self.compare_obs(s8, 'move', before, still, mc['key'], 'move target after the source was reused')
                                                self.done(s8, [c, p, q])
            if ma and ma['acc'] == 'public':
                for s1, q in self.second(s.copy()):
                    for s2 in self.assign(s1, ma['key'], q, p):
                        if s2.exc is not None:
                            continue
                        for s3, after in self.observe(s2, q):
                            self.compare_obs(s3, 'move', before, after, ma['key'], 'move assignment')
                            self.done(s3.copy(), [p, q])
                            if ma:
                                for s4, r in self.second(s3.copy(), 'd'):
                                    for s5, want in self.observe(s4, r):
                                        for s6 in self.assign(s5, ma['key'], p, r):
                                            if s6.exc is not None:
                                                continue
                                            for s7, got in self.observe(s6, p):
                                                self.compare_obs(s7, 'move', want, got, ma['key'], 'moved-from object assigned again')
                                                self.done(s7, [q, r, p])
                # self move must not corrupt memory
                for s2 in self.assign(s.copy(), ma['key'], p, p):
                    if s2.exc is None:
                        self.done(s2, [p])

    def part_set(self, st, p, key, i):
        """what a setter stores is what the matching getter shows"""
        gets = {m['n']: m for c, m in self.getters()}
        for _, m in self.setters():
            g = 'get' + m['n'][3:]
            if g not in gets and not any(x.startswith(g) for x in gets):
                continue
            if g not in gets:
                continue
            sets = self.arg_sets(m['key'], 'w')
            if not sets or m['np'] != 1 or i > 1:
                continue
            for s, vs, own in self.build(st.copy(), sets[0], 'w'):
                want = deep(self.I, s, vs[0])
                if isinstance(want, tuple) and want and want[0] == '&' and gets[g]['ret'].k == 'rec':
                    want = want[1]
                for s2, before in self.observe(s, p):
                    for s3, v in self.E.call(s2, p, m['key'], vs):
                        if s3.exc is not None:
                            continue
                        for s4, after in self.observe(s3, p):
                            self.set_shows(s4, m, g, want, before, after)

    def set_shows(self, st, m, g, want, before, after):
        got = after.get(g)
        if isinstance(got, tuple) and got and got[0] == '&' or isinstance(want, tuple) and want and want[0] == '&':
            return
        self.count('set')
        r = same(self.I, st, want, got)
        if r is not True:
            self.bad(st, 'set', '%s() then %s() gives %s instead of %s' % (m['n'], g, show(got), show(want)), m['key'], r is False)
        conv = tuple(x for x in before if not x.startswith('get'))
        self.compare_obs(st, 'set', before, after, m['key'], '%s() changed something else' % m['n'], skip=(g,) + conv)

    def part_alias(self, st, p, key, i):
        """setters given a value obtained from the same object"""
        if i > 0:
            return
        for _, m in self.setters():
            pt = m['pt'][0]
            for _, g in self.getters():
                r = g['ret']
                ok = r.is_ptr() and pt.is_ptr() and r.to.ch and pt.to.ch or \
                    (r.is_ptr() and pt.k == 'ref' and r.to.k == 'rec' and pt.to.k == 'rec' and self.P.derives(r.to.q, pt.to.q)) or \
                    (r.k == 'ref' and pt.k == 'ref' and r.to.k == 'rec' and r.to.q == pt.to.q)
                if not ok or m['np'] != 1:
                    continue
                pre = [st.copy()]
                if r.is_ptr() and r.to.k == 'rec':
                    # make sure there is something to return
                    pre = []
                    spec = self.arg_sets(m['key'], 'z')
                    for s, vs, own in self.build(st.copy(), spec[0], 'z'):
                        for s2, v in self.E.call(s, p, m['key'], vs):
                            if s2.exc is None:
                                cur = [s2]
                                for loc, c in own:
                                    cur = [y for x in cur for y in self.drop(x, loc, c)]
                                pre.extend(cur)
                for s0 in pre:
                    for s, v in self.E.call(s0, p, g['key'], []):
                        if s.exc is not None or not isinstance(v, Ptr):
                            continue
                        want = deep(self.I, s, v)
                        n0 = len(self.I.alarms)
                        self.count('alias')
                        for s2, x in self.E.call(s, p, m['key'], [v]):
                            if s2.exc is not None:
                                s2.exc = None
                                self.done(s2, [p]); continue
                            gm = [y for _, y in self.getters() if y['n'] == 'get' + m['n'][3:]]
                            if gm:
                                for s3, w in self.E.call(s2, p, gm[0]['key'], []):
                                    got = deep(self.I, s3, w)
                                    q = same(self.I, s3, want, got)
                                    if q is not True:
                                        self.bad(s3, 'alias', '%s(%s()) stores %s instead of %s' % (m['n'], g['n'], show(got), show(want)), m['key'], q is False)
                                    self.done(s3, [p])
                            else:
                                self.done(s2, [p])
                        if len(self.I.alarms) > n0:
                            for a in list(self.I.alarms.values())[n0:]:
                                a.extra = ('alias', m['n'], g['n'])

    def part_reject(self, st, p, key, i):
        """a call that throws leaves everything the getters show as it was"""
        if i > 0:
            return
        for c, m in self.E.methods(self.cls):
            if m.get('const') or m.get('static') or not m['np'] or self.skip_method(m):
                continue
            sets = self.arg_sets(m['key'], 'r')
            if not sets:
                continue
            specs = list(sets)
            for j, (k, t, nm, mode) in enumerate(sets[0]):
                if k in ('cstr', 'str&', 'str'):
                    for md in ('blank', 'empty'):
                        v = list(sets[0]); v[j] = (k, t, nm, md)
                        specs.append(v)
            for spec in specs:
                for s, before in self.observe(st.copy(), p):
                    for s1, vs, own in self.build(s, spec, 'r'):
                        for s2, v in self.E.call(s1, p, m['key'], vs):
                            if s2.exc is None:
                                continue
                            s2.exc = None
                            self.rejecting[m['key']] = self.rejecting.get(m['key'], 0) + 1
                            for s3, after in self.observe(s2, p):
                                self.compare_obs(s3, 'reject', before, after, m['key'], '%s() rejected its argument' % m['n'])
                                self.done(s3, [p])

    # ---- arguments that must be rejected: (class, constructor or method, position of the argument, what is bad about it)
    MUST = [
        (CLIENT, 'setServerName', 0, ('null', 'blank', 'empty')),
        (CLIENT, None, 0, ('null', 'blank', 'empty')),
        ('jed_utils::Credential', None, 0, ('null', 'blank', 'empty')),
        ('jed_utils::Credential', None, 1, ('null', 'empty')),
        ('jed_utils::Credential', 'setUsername', 0, ('null', 'blank', 'empty')),
        ('jed_utils::Credential', 'setPassword', 0, ('null', 'empty')),
        ('jed_utils::cpp::Credential', None, 0, ('blank', 'empty')),
        ('jed_utils::cpp::Credential', None, 1, ('empty',)),
        ('jed_utils::cpp::Credential', 'setUsername', 0, ('blank', 'empty')),
        ('jed_utils::cpp::Credential', 'setPassword', 0, ('empty',)),
        ('jed_utils::MessageAddress', None, 0, ('blank', 'empty')),
        ('jed_utils::cpp::MessageAddress', None, 0, ('blank', 'empty')),
        ('jed_utils::Attachment', None, 0, ('blank', 'empty')),
        ('jed_utils::cpp::Attachment', None, 0, ('blank', 'empty')),
        ('jed_utils::cpp::Message', None, 1, ('none',)),
    ]

    def part_must(self):
        """-> number of obligations; a bad argument that is accepted is a finding"""
        n = 0
        for c, name, pos, modes in self.MUST:
            if not (self.cls == c or self.P.derives(self.cls, c)) or (c == 'jed_utils::Credential' and self.cls != c):
                continue
            if name is None:
                ms = [m for m in self.E.ctors(self.cls) if not (m.get('copy') or m.get('move')) and m['np'] > pos]
            else:
                ms = [m for _, m in self.E.methods(self.cls) if m['n'] == name and m['np'] > pos]
            for m in ms:
                sets = self.arg_sets(m['key'], 'n')
                if not sets:
                    self.skipped.append(m['key']); continue
                for md in modes:
                    k, t, nm, _ = sets[0][pos]
                    if md == 'null' and k != 'cstr' or md in ('blank', 'empty') and k not in ('cstr', 'str&', 'str'):
                        continue
                    spec = list(sets[0]); spec[pos] = (k, t, nm, md)
                    n += 1
                    self.guard(self.must1, m, spec, md, name)
        return n

    def must1(self, m, spec, md, name):
        what = {'null': 'a null', 'blank': 'a blank', 'empty': 'an empty', 'none': 'an empty'}[md]
        starts = []
        if name is None:
            for s, vs, own in self.build(self.E.start(), spec, 'n'):
                starts += [x for x, p in self.E.construct(s, self.cls, m['key'], 'on', vs)]
        else:
            for st, p, key in self.objects('a', True)[:1]:
                for s, vs, own in self.build(st, spec, 'n'):
                    starts += [x for x, v in self.E.call(s, p, m['key'], vs)]
        self.count('must')
        for s in starts:
            if s.exc is None:
                nm = [x[2] for x in spec if x[3] == md][0]
                self.bad(s, 'accepted', '%s %s is accepted' % (what, nm), m['key'], True)
