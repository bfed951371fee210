"""Building blocks for analysis entry points: symbolic inputs, construction of library objects through their public
constructors, calls of public methods, and end-of-life destruction."""
from .dom import *
from .state import *
from .interp import Interp, Infeasible, N, X, R, Budget, Undecided
from . import models


class Env:
    def __init__(self, P, ghost=None, mods=None):
        self.P = P
        self.I = Interp(P, mods or models, ghost)
        self.g = ghost
        self.paths = 0
        for key, f in P.funcs.items():
            if f['q'] in models.SUMMARIES:
                self.I.overrides[key] = models.SUMMARIES[f['q']]

    # ---- states and inputs
    def start(self):
        return State()

    def node(self, key, line=None):
        f = self.P.funcs.get(key) or self.P.method_by_key.get(key) or {}
        return {'k': 'call', 'l': line, 't': f.get('ret'), 'q': f.get('q', f.get('n', key)), 'fn': key, 'args': [], 'repo': 1, 'cls': f.get('cls'), 'pt': []}

    def cstr(self, st, name, tag=None, minlen=0, src=None, txt=None):
        """a caller-owned C string; the analysis knows nothing but its name"""
        oid = ('e', name)
        if oid not in st.h:
            if txt is None:
                s = src or (('in', name, minlen) if minlen else ('in', name))
                txt = full(s)
            st.h[oid] = Obj('ext', CBuf(add(slen(txt), 1), txt, True))
        return Ptr(oid, (), True, 0)

    def sstr(self, st, name, txt=None):
        """a std::string held by the caller"""
        oid = ('v', 0, name)
        st.h[oid] = Obj('var', txt if txt is not None else full(('in', name)))
        return Ptr(oid)

    # ---- lookup
    def ctors(self, cls, public=True):
        out = []
        for m in self.P.records[cls]['methods']:
            if m['kind'] == 'ctor' and not m.get('deleted') and (not public or m['acc'] == 'public'):
                out.append(m)
        return out

    def special(self, cls, which):
        m = self.P.special(cls, which)
        return None if m is None or m.get('deleted') else m

    def methods(self, cls, own=False):
        """public non-static member functions callable on an object of class cls: [(declaring class, method)]"""
        seen = set()
        out = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            r = self.P.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['kind'] in ('ctor', 'dtor') or m['acc'] != 'public' or m.get('deleted') or m.get('cassign') or m.get('massign'):
                    continue
                sig = (m['n'], tuple(t.s for t in m['pt']))
                if sig in seen:
                    continue
                seen.add(sig)
                out.append((c, m))
            if own:
                break
            todo.extend(b['q'] for b in r['bases'] if b['acc'] in ('public', 0))
        return out

    # ---- operations; every one maps a list of states to a list of states
    def place(self, st, name, val=UNDEF):
        oid = ('v', 0, name)
        st.h[oid] = Obj('var', val)
        return Ptr(oid)

    def construct(self, st, cls, key, name, args, heap=False):
        """-> [(state, Ptr or None when the constructor threw)]"""
        loc = self.place(st, name, self.I.undef_rec(cls))
        out = []
        n = self.node(key)
        n['cls'] = cls
        try:
            rs = self.I.call_ctor(st, key, cls, loc, args, n)
        except Infeasible:
            rs = []
        for s in rs:
            if s.exc is not None:
                s.h.pop(loc.obj, None)
                out.append((s, None))
            else:
                out.append((s, loc))
        return out

    def call(self, st, this, key, args, virt=True):
        """-> [(state, value)] with state.exc set when the call threw"""
        n = self.node(key)
        m = self.P.method_by_key.get(key)
        if m is not None and m.get('virt'):
            try:
                dyn = self.I.dyncls(st, this, n)
            except Infeasible:
                return []
            key = self.P.find_override(dyn, key) or key
        f = self.P.funcs.get(key)
        t = f['ret'] if f else (m['ret'] if m else None)
        loc = None
        if t is not None and t.k == 'rec':
            oid = ('v', 0, '$ret')
            st.h[oid] = Obj('var', self.I.undef(t))
            loc = Ptr(oid)
        n['t'] = t
        try:
            if key in self.I.overrides:
                return self.I.overrides[key](self.I, st, n, this, args, loc)
            if f is None or f.get('body') is None:
                if m is not None and (m.get('cassign') or m.get('massign')):
                    return [(x, this) for x in self.I.assign_members(st, m_cls(self.P, key), this, args[0], m, n)]
                return []
            return self.I.invoke(st, key, this, args, n, loc)
        except Infeasible:
            return []

    def destroy(self, st, loc, cls):
        n = self.node(None)
        out = []
        try:
            for s in self.I.destroy_cls(st, loc, cls, n):
                s.h.pop(loc.obj, None)
                out.append(s)
        except Infeasible:
            pass
        return out

    def value(self, st, p, t=None):
        """content of the object/pointer p for comparisons"""
        return self.I.load(st, p, None, t)

    def finish(self, st):
        """end of the scenario: everything still reachable from the caller's variables is dropped"""
        self.paths += 1
        st.h.pop(('v', 0, '$ret'), None)
        st.canon(self.I.leak)

    def loop(self, st, count, body):
        """for (i = 0; i < count; i++) body(state, i) -> states, through the engine's own loop treatment"""
        I = self.I
        iid = ('v', 0, '$i')
        st.h[iid] = Obj('var', 0)
        def cond(s):
            return I.compare(s, '<', s.h[iid].val, count, None)
        def fb(s):
            return [(X if x.exc is not None else N, x) for x in body(s, s.h[iid].val)]
        def inc(s):
            s.h[iid] = Obj('var', add(s.h[iid].val, 1))
            return [s]
        out = []
        for kd, s in I.run_loop(st, cond, fb, inc, {'l': None}):
            s.h.pop(iid, None)
            out.append(s)
        return out


def m_cls(P, key):
    for q, r in P.records.items():
        for m in r['methods']:
            if m['key'] == key:
                return q
    return None
