"""Network and TLS library models, and the protocol ghost state of every connection.

Each connection a client opens is a ghost object ('N', i): descriptor state, TLS state, the SMTP step reached, the reply
class of the last command, the text sent since the last reply.  Rules are checked when the interpreted program calls the
operating system or OpenSSL; a rule broken in a state the interpreter knows exactly is a finding, otherwise an undecided
obligation."""
from .dom import *
from .state import *
from . import models as M
from .models import is_lit, lbytes

EINTR, EIO, EINPROGRESS, O_NONBLOCK = 4, 5, 115, 0x800
F_GETFL, F_SETFL = 3, 4
SO_ERROR, SO_RCVTIMEO, SO_SNDTIMEO, SOL_SOCKET = 4, 20, 21, 1
G = ('N', 'g')
CODES = (220, 235, 250, 334, 354, 501)
NORM = {'HELO': 'ehlo', 'EHLO': 'ehlo', 'STARTTLS': 'starttls', 'AUTH': 'auth', 'MAIL': 'mail', 'RCPT': 'rcpt', 'DATA': 'data',
        'QUIT': 'quit', 'RSET': 'rset', 'NOOP': 'noop', 'VRFY': 'vrfy'}


class Finding:
    __slots__ = ('pid', 'rule', 'msg', 'fn', 'file', 'line', 'trace')

    def __init__(self, *a):
        self.pid, self.rule, self.msg, self.fn, self.file, self.line, self.trace = a


class Enough(BaseException):
    """findings enough for a verdict"""


class Mods:
    """the library models plus the network functions"""
    def __init__(self, net):
        for k in dir(M):
            if not k.startswith('__'):
                setattr(self, k, getattr(M, k))
        self.FUNCS = dict(M.FUNCS)
        for k in dir(net):
            if k.startswith('x_'):
                self.FUNCS[k[2:]] = getattr(net, k)


def classes_of(iv):
    """partition class of an interval set of reply codes"""
    out = set()
    rest = iv
    for c in CODES:
        if any(a <= c <= b for a, b in iv):
            out.add(c)
            rest = iv_remove(rest, c)
    if rest:
        out.add('other')
    return frozenset(out)


def lead(t):
    return t.p[0] if t.p and isinstance(t.p[0], bytes) else b''


def tail(t):
    return t.p[-1] if t.p and isinstance(t.p[-1], bytes) else b''


def lits(t, out=None):
    """all literal pieces of a text"""
    if out is None:
        out = []
    for p in t.p:
        if isinstance(p, bytes):
            out.append(p)
        elif isinstance(p, Rep):
            for a in p.alts:
                lits(a, out)
        elif isinstance(p, Seg) and p.src[0] == 'cat':
            lits(p.src[1], out)
        elif isinstance(p, Unk):
            out.extend(x[1] for x in p.tags if isinstance(x, tuple) and x and x[0] == 'lit')
    return out


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def verb(t):
    w = lead(t).lstrip(b'\r\n ').split(b'\r')[0].split(b' ')[0].split(b':')[0]
    try:
        return w.decode('ascii').upper()
    except UnicodeDecodeError:
        return ''


HEADSTEP = {'FROM': 'headerfrom', 'TO': 'headertocc', 'CC': 'headercc', 'SUBJECT': 'headersubject', 'CONTENT-TYPE': 'headercontent'}


def stuffing(tab, sol):
    """compare a transducer with the rule of RFC 5321, 4.5.2: one dot is put before a dot at the start of a line and nothing else is changed.
    A line starts after CR LF; whether it does after a lone LF is left open"""
    out = []
    seen = set()
    todo = [((0, 'sol' if sol else 'mid'), ())]
    def bad(prop, rule, msg):
        if (prop, rule) not in [x[:2] for x in out]:
            out.append((prop, rule, msg))
    while todo:
        (q, r), path = todo.pop(0)
        if (q, r) in seen:
            continue
        seen.add((q, r))
        for c in range(1, 256):
            if (q, c) not in tab:
                continue
            nq, o = tab[(q, c)]
            ch = bytes((c,))
            eg = repr(bytes(path) + ch)[1:]
            if c == 46 and o in (b'.', b'..'):
                if r == 'sol' and o == b'.':
                    bad('C35', 'not-escaped', 'a dot at the start of a line of the body is transmitted without a second dot (body %s)' % eg)
                elif r in ('mid', 'cr') and o == b'..':
                    bad('C35', 'escaped', 'a dot that does not start a line of the body is transmitted twice (body %s)' % eg)
            elif o != ch:
                bad('C34', 'altered', 'the body is not transmitted unchanged (body %s)' % eg)
            nr = 'cr' if c == 13 else ('sol' if r == 'cr' else 'lf') if c == 10 else 'mid'
            todo.append(((nq, nr), path + (c,)))
    return out


def regex_chars(pat):
    """every byte a text that matches the ECMAScript pattern completely may contain; None when not understood"""
    word = frozenset(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
    dig = frozenset(b'0123456789'); spc = frozenset(b' \t\n\v\f\r')
    esc = {ord('d'): dig, ord('w'): word, ord('s'): spc, ord('D'): ALLCH - dig, ord('W'): ALLCH - word, ord('S'): ALLCH - spc, ord('n'): frozenset(b'\n'), ord('r'): frozenset(b'\r'),
           ord('t'): frozenset(b'\t'), ord('f'): frozenset(b'\f'), ord('v'): frozenset(b'\v'), ord('0'): frozenset((0,))}
    named = {b'alpha': frozenset(c for c in word if chr(c).isalpha()), b'digit': dig, b'alnum': word - frozenset(b'_'), b'space': spc, b'lower': frozenset(b'abcdefghijklmnopqrstuvwxyz'),
             b'upper': frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZ'), b'punct': frozenset(range(33, 127)) - word | frozenset(b'_'), b'blank': frozenset(b' \t')}
    out = frozenset()
    i, n = 0, len(pat)
    while i < n:
        c = pat[i]
        if c == 92:
            if i + 1 >= n:
                return None
            d = pat[i + 1]
            if d in b'xuc' or d in b'123456789':
                return None
            if d not in b'bB':
                out |= esc.get(d, frozenset((d,)))
            i += 2
        elif c == 91:
            j = i + 1
            neg = j < n and pat[j] == 94
            if neg:
                j += 1
            cs = set(); last = None
            first = True
            while j < n and (pat[j] != 93):
                if pat[j:j + 2] == b'[:':
                    e = pat.find(b':]', j)
                    if e < 0 or pat[j + 2:e] not in named:
                        return None
                    cs |= named[pat[j + 2:e]]; j = e + 2; last = None
                    continue
                if pat[j] == 92 and j + 1 < n:
                    d = pat[j + 1]
                    if d in b'xuc' or d in b'123456789':
                        return None
                    x = esc.get(d, frozenset((d,))); j += 2
                else:
                    x = frozenset((pat[j],)); j += 1
                if j + 1 < n and pat[j] == 45 and pat[j + 1] != 93 and len(x) == 1:
                    hi = pat[j + 1]
                    if hi in (91, 92):
                        return None
                    cs |= set(range(min(x), hi + 1)); j += 2
                else:
                    cs |= x
            if j >= n:
                return None
            out |= (ALLCH - frozenset(cs)) if neg else frozenset(cs)
            i = j + 1
        elif c == 46:
            out |= ALLCH - BREAKS
            i += 1
        elif c == 123:
            j = pat.find(b'}', i)
            if j < 0:
                return None
            i = j + 1
        elif c == 40:
            i += 3 if pat[i + 1:i + 2] == b'?' else 1
        elif c in b'^$*+?|)':
            i += 1
        else:
            out |= frozenset((c,))
            i += 1
    return out


class Net:
    PW = 'pw'
    USER = 'user'

    def __init__(self, P, **opts):
        self.P = P
        self.o = dict(content=False, logs=False, rcpt=False, codes=False, silent=False, conv=False)
        self.o.update(opts)
        RAWTAGS[0] = bool(self.o['content'])
        self.found = {}
        self.stop_pid = None        # stop after a few findings for this property
        self.nfound = 0
        self.hurry = None
        self.und = {}
        self.counts = {}
        self.null_data = False
        self.client = None          # class of the client under analysis
        self.forced = self.secure = False
        self.props = None
        self.seen = set(); self.atts = None
        self.roles = {}             # source of a text of the message -> its role
        self.lists = {}             # role -> number of addresses
        self.email = None           # name of the e-mail address of an address
        self.stls_other = self.last_tested = False      # STARTTLS / the last EHLO line is looked for in other ways
        self.late = []              # findings that only count if STARTTLS is never looked for in another way
        self.tested = set()         # mechanism names the program looks for in EHLO replies

    # ------------------------------------------------------------ reporting
    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def bad(self, I, st, pid, rule, msg, n=None, sure=True):
        if I.suppress:
            return
        fn, file = I.where(st)
        line = n.get('l') if isinstance(n, dict) else None
        if fn == '?' and isinstance(n, dict) and n.get('fn') in self.P.funcs:
            f = self.P.funcs[n['fn']]       # a verdict about a whole call
            fn, file, line = f['q'], f['file'], line or f.get('line')
        if st.approx or not sure:
            self.und.setdefault(pid, {})[(rule, fn, line, msg)] = st.approx or 'inexact'
            return
        k = (pid, rule, fn, line, msg)
        if k not in self.found:
            tr = [I.P.funcs[x]['q'] if x in I.P.funcs else str(x) for x in st.stack] + [str(x) for x in st.notes()]
            self.found[k] = Finding(pid, rule, msg, fn, file, line, tr)
            if pid == self.stop_pid:
                self.enough()

    def enough(self):
        """a property that is broken need not be shown to be broken in every way"""
        self.nfound += 1
        if self.nfound >= 3:
            raise Enough()
        if self.nfound == 1 and self.hurry:
            self.hurry()        # the verdict is clear, do not look for other ways for long

    def settle(self):
        """the analysis of a configuration is complete"""
        for x in self.late:
            if self.stls_other:
                self.und.setdefault('C04', {})[('test', x[4])] = 'how STARTTLS is recognised in the EHLO reply is not understood'
            else:
                self.bad(*x)
        self.late = []
        if self.atts:
            I, st, n = self.atts
            for x in ('file name', 'name', 'content id'):
                if ('attachments', x) not in self.seen:
                    self.bad(I, st, 'C34', 'dropped', 'the %s of an attachment is never transmitted' % ('content' if x == 'file name' else x), n)

    # ------------------------------------------------------------ communication log
    def find_logger(self, cls):
        """the methods that append to the communication log, recognised by what they write: (key, log field, size field)"""
        P = self.P
        chain = [cls] + list(P.all_bases(cls))
        def mems(body):
            return [x for x in walk(body) if x.get('k') == 'mem' and isinstance(x.get('b'), dict) and x['b'].get('k') == 'this']
        logf = set()
        for c, ms in [(c, P.records[c]['methods']) for c in chain if c in P.records]:
            for m in ms:
                f = P.funcs.get(m['key'])
                if m['n'] == 'getCommunicationLog' and f and f.get('body'):
                    logf |= {(x['cls'], x['f']) for x in mems(f['body']) if x['t'].is_ptr()}
        out = {}
        if len(logf) != 1:
            return out
        for c in chain:
            for m in P.records[c]['methods'] if c in P.records else ():
                f = P.funcs.get(m['key'])
                if not f or not f.get('body') or f['kind'] != 'method' or f.get('static') or not 1 <= len(f['params']) <= 2:
                    continue
                if f['ret'] is None or f['ret'].k != 'void' or not all(p['t'].is_ptr() and p['t'].to.const and p['t'].to.ch for p in f['params']):
                    continue
                w = set(); ok = True
                for x in walk(f['body']):
                    k = x.get('k')
                    tgt = None
                    if k == 'bin' and x.get('op') == '=' or k == 'cassign':
                        tgt = x.get('a')
                    elif k == 'un' and x.get('op') in ('++', '--'):
                        tgt = x.get('e')
                    elif k in ('call', 'mcall') and x.get('fn') in P.funcs and P.funcs[x['fn']].get('body') and P.funcs[x['fn']].get('kind') == 'method':
                        ok = False
                    while isinstance(tgt, dict) and tgt.get('k') in ('cast', 'sub', 'paren'):
                        tgt = tgt.get('e') or tgt.get('b')
                    if isinstance(tgt, dict) and tgt.get('k') == 'mem' and isinstance(tgt.get('b'), dict) and tgt['b'].get('k') == 'this':
                        w.add((tgt['cls'], tgt['f'], tgt['t'].is_ptr()))
                ptrs = {(a, b) for a, b, p in w if p}
                ints = [(a, b) for a, b, p in w if not p]
                if ok and ptrs == logf and len(ints) <= 1:
                    a, b = next(iter(logf))
                    out[m['key']] = (a + '::' + b, '::'.join(ints[0]) if ints else None)
        return out

    def install_logger(self, I, cls):
        found = self.find_logger(cls)
        for key, (lf, sf) in found.items():
            def model(I, s, n, this, vs, loc, key=key, lf=lf, sf=sf):
                return self.log_item(I, s, n, this, vs, loc, key, lf, sf)
            I.overrides[key] = model
        return len(found)

    def log_item(self, I, s, n, this, vs, loc, key, lf, sf):
        if not isinstance(this, Ptr):
            return I.invoke(s, key, this, vs, n, loc)
        texts = []
        for v in vs:
            if v is NULL:
                I.alarm(s, 'null', 'a null pointer is given to the communication log', n)
                return []
            try:
                texts.append(I.norm(s, I.cstr(s, v, n)))
            except Infeasible:
                return []
        fp = Ptr(this.obj, this.path + (lf,))
        p = I.peek(s, fp)
        self.count('log items')
        if p is NULL:
            I.alarm(s, 'null', 'the communication log is used before it was allocated', n)
            return []
        if not isinstance(p, Ptr) or p.obj not in s.h or s.h[p.obj].status != 'alive' or not isinstance(s.h[p.obj].val, CBuf):
            return I.invoke(s, key, this, vs, n, loc)
        item = texts[0]
        pref = lbytes(texts[1]) if len(texts) > 1 and is_lit(texts[1]) else b'c'
        if self.PW in str_tags(item):
            out = []
            del I.overrides[key]
            try:
                outs = I.invoke(s, key, this, vs, n, loc)
            finally:
                def model(I, s, n, this, vs, loc, key=key, lf=lf, sf=sf):
                    return self.log_item(I, s, n, this, vs, loc, key, lf, sf)
                I.overrides[key] = model
            for t, v in outs:
                q = I.peek(t, fp)
                if isinstance(q, Ptr) and q.obj in t.h and isinstance(t.h[q.obj].val, CBuf) and t.h[q.obj].val.txt is not None and self.PW in str_tags(t.h[q.obj].val.txt):
                    self.bad(I, t, 'C05', 'log', 'the password gets into the communication log', n)
            return outs
        if self.o['logs']:
            if pref == b's':
                self.logged_reply(I, s, item)
            else:
                ld = lead(item)[:40].decode('latin-1')
                if ld:
                    self.gset(s, log=self.gget(s, 'log') | {ld})
                self.logged_reply(I, s, item)
        ln = sym(('loglen',), 0, MAXLEN)
        cap = add(ln, sym(('logroom',), 1, MAXLEN))
        s.h[p.obj] = s.h[p.obj].with_(val=CBuf(cap, Str((Unk(-7, ln, frozenset(), None),)), True))
        if sf is not None:
            I.store(s, Ptr(this.obj, this.path + (sf,)), cap, n)
        return [(s, VOID)]

    def logged_reply(self, I, s, item):
        for p in item.p:
            if isinstance(p, Seg) and p.src[0] == 'rep':
                for i in self.mine(s):
                    if self.c(s, i, 'cmd') == p.src[1] and self.c(s, i, 'st') != 'closed':
                        # lg: number of bytes at the end of what was received that are not in the log
                        lg, rx = self.c(s, i, 'lg'), self.c(s, i, 'rx')
                        e = add(p.off, p.n)
                        if s.ge0(sub(sub(rx, lg), p.off)):
                            new = 0 if s.eq(e, rx) or not I.exact(s, sub(rx, e)) else sub(rx, e)
                            if s.ge0(sub(lg, new)):
                                self.put(s, i, lg=new)

    # ------------------------------------------------------------ ghost objects
    def init(self, st, client, **kw):
        f = dict(fail=Disc(0), acc=Disc(False), new=Disc(False), had=Disc(False), inn=Disc(False), cur=Disc('c'), batch=Disc(False), selfok=Disc(False),
                 creds=Disc(False), log=Disc(frozenset()), plain=Disc(False), waits=Disc(0), silent=Disc(False), ehlo=Disc(False))
        f.update(kw)
        st.h[G] = Obj('ghost', Rec('ghost', f))
        st.h[('g', 'errno')] = Obj('glob', 0)

    def gget(self, st, k):
        v = st.h[G].val.f[k]
        return v.v if isinstance(v, Disc) else v

    def gset(self, S_, **kw):
        r = S_.h[G].val
        d = dict(r.f)
        for k, v in kw.items():
            d[k] = v if isinstance(v, (Lin, Str, Disc)) else Disc(v)
        S_.h[G] = Obj('ghost', Rec('ghost', d))

    def conns(self, st):
        return sorted(k[1] for k in st.h if k[0] == 'N' and k[1] != 'g')

    def mine(self, st):
        cur = self.gget(st, 'cur')
        return [i for i in self.conns(st) if self.c(st, i, 'owner') == cur]

    def c(self, st, i, k):
        v = st.h[('N', i)].val.f[k]
        return v.v if isinstance(v, Disc) else v

    RAW = {'!cur', '!pt', '!psrc', 'pos', 'ptot', 'ps', 'rx', 'lg', 'rcv', 'lrx', 'lrcv', 'vr', 'lo_to', 'hi_to', 'lo_cc', 'hi_cc', 'lo_bcc', 'hi_bcc', '!content', 'n_to', 'n_cc', 'n_bcc',
           'adv_PLAIN', 'adv_LOGIN', 'adv_XOAUTH2'}

    def put(self, S_, i, **kw):
        r = S_.h[('N', i)].val
        d = dict(r.f)
        for k, v in kw.items():
            k = {'cur': '!cur', 'pt': '!pt', 'content': '!content', 'psrc': '!psrc'}.get(k, k)
            d[k] = v if k in self.RAW else Disc(v)
        S_.h[('N', i)] = Obj('ghost', Rec('conn', d))

    def newconn(self, st):
        used = set(self.conns(st))
        i = 0
        while i in used:
            i += 1
        f = {'st': 'new', 'nb': False, 'rto': False, 'sto': False, 'tls': 0, 'cert': 'u', 'host': False, 'cmd': 'none', 'rc': frozenset(), 'quit': False, 'owner': self.gget(st, 'cur'),
             'chain': False, 'auth': 'no', 'mech': '', 'stls': frozenset(), 'content_ok': 0, 'last': None, 'got': False, 'gap_to': False, 'gap_cc': False, 'gap_bcc': False}
        d = {k: Disc(v) for k, v in f.items()}
        d['popen'] = Disc(False)
        d.update({'!cur': EMPTY, '!pt': EMPTY, '!psrc': EMPTY, 'pos': 0, 'ptot': 0, 'ps': 0, 'rx': 0, 'lg': 0, 'rcv': 0, 'vr': 0, 'lrx': 0, 'lrcv': 0})
        for l in ('to', 'cc', 'bcc'):
            d['lo_' + l] = 0; d['hi_' + l] = 0; d['n_' + l] = 0
        for m in ('PLAIN', 'LOGIN', 'XOAUTH2'):
            d['adv_' + m] = 0
        st.h[('N', i)] = Obj('ghost', Rec('conn', d))
        return i

    def fd(self, i):
        return sym(('fd', i), 3, 1 << 20)

    def slot(self, st, v):
        """connection of a descriptor value: index, or None"""
        if isinstance(v, Lin):
            s = single(v)
            if s and s[1] == 1 and s[2] == 0:
                k = SYMS[s[0]].key
                if k and k[0] == 'fd':
                    return k[1]
        return None

    def usefd(self, I, st, v, n, what):
        """the connection an operation works on; None when there is none"""
        i = self.slot(st, v)
        if i is not None and ('N', i) in st.h:
            if self.c(st, i, 'st') == 'closed':
                self.bad(I, st, 'C14', 'use-after-close', '%s on a socket that was already closed' % what, n)
                raise Infeasible('closed')
            if self.c(st, i, 'owner') != self.gget(st, 'cur'):
                self.bad(I, st, 'C22', 'shared', '%s on a connection that belongs to another client object' % what, n)
            return i
        c = st.const(v) if is_num(v) else None
        if c is not None:
            if c >= 0:
                self.bad(I, st, 'C14', 'no-socket', '%s on descriptor %d, which is not a socket of this client' % (what, c), n)
            return None
        if is_num(v):
            st.imprecise('unknown descriptor')
            I.undec(st, 'unknown descriptor in ' + what, n)
        else:
            st.imprecise('unknown descriptor')
        return None

    def failed(self, st, what, force=False):
        """a network operation failed"""
        if self.gget(st, 'fail') == 0:
            self.gset(st, fail=what if self.o['codes'] else 'op')
        st.note(what + ' fails')

    def err(self, st, n=None):
        st.h[('g', 'errno')] = Obj('glob', fresh('errno', 1, 4095))

    def fork(self, st):
        return st.copy()

    # ------------------------------------------------------------ engine hooks
    def on_enter(self, I, st, f, this, vs):
        pass

    def on_exit(self, I, s, f, this):
        pass

    def on_text_test(self, I, s, a, b, kind):
        pass

    def rep_of(self, t):
        """(label, off, n) when the text is one slice of a server reply"""
        if len(t.p) == 1 and isinstance(t.p[0], Seg):
            src = t.p[0].src
            if src[0] == 'rep':
                return src[1], t.p[0].off, t.p[0].n
        return None

    def rep_labels(self, t):
        out = set()
        for x in str_tags(t):
            if isinstance(x, tuple) and x[0] == 'rep':
                out.add(x[1])
        return out

    def on_text(self, I, s, a, pat, kind, yes, pos=None):
        """the program learned that a text equals / contains another one"""
        if kind == 'eq' and is_lit(a):
            a, pat = pat, a
        if not is_lit(pat):
            return
        b = lbytes(pat)
        r = self.rep_of(a)
        up = b.upper()
        if kind == 'eq' and r and len(b) == 3 and b.isdigit() and r[1] == 0:
            v = self.reply_code(s, Seg(('rep', r[0]), 0, 3))
            ok = s.assume_eq0(sub(v, int(b))) if yes else s.assume_ne0(sub(v, int(b)))
            if not ok:
                raise Infeasible('code')
        if self.o['conv']:
            labs = {r[0]} if r else self.rep_labels(a)
            if 'ehlo' in labs:
                for i in self.mine(s):
                    if self.c(s, i, 'st') == 'closed' or self.c(s, i, 'cmd') != 'ehlo':
                        continue
                    if b'STARTTLS' in up and kind in ('find', 'eq'):
                        ev = self.c(s, i, 'stls')
                        if yes:
                            ev = ev | {'found'}
                        else:
                            miss = sub(self.c(s, i, 'rx'), r[2]) if r is not None and r[1] == 0 else None
                            if kind != 'find' or pos != 0 or miss is None:
                                ev = ev | {'other'}
                                self.stls_other = True
                            elif s.ge0(sub(2, miss)):       # at most the end of the last line is missing
                                ev = ev | {('absent', b)}
                            elif I.exact(s, miss) and s.copy().assume_ge0(sub(miss, 3)):
                                ev = ev | {'part'}
                            else:
                                ev = ev | {'other'}
                                self.stls_other = True
                        self.put(s, i, stls=ev)
                    elif b in (b'250 ', b' ') and kind == 'eq' or kind == 'find' and b'250 ' in b:
                        if yes:
                            self.last_tested = True
                            self.put(s, i, stls=self.c(s, i, 'stls') | {'last'})
                    else:
                        for m in (b'PLAIN', b'LOGIN', b'XOAUTH2'):
                            if m in up and (kind == 'find' or up.strip() == m):
                                self.tested.add(m.decode())
                                if yes:
                                    self.put(s, i, **{'adv_' + m.decode(): 1})

    def on_console(self, I, s, t, n):
        self.count('console writes')
        if t is not None and self.PW in str_tags(t):
            self.bad(I, s, 'C05', 'console', 'the password is written to the console', n)

    def on_memcpy(self, I, s, n, d, src, k):
        return None

    def on_abort(self, I, s, n):
        self.bad(I, s, 'C27', 'abort', 'the process is terminated', n)

    def normalise(self, I, s):
        if G not in s.h:
            return
        for i in self.conns(s):
            self.flush(I, s, i)
            cmd = self.c(s, i, 'cmd')
            if cmd != 'none':
                rc = self.rcset(s, i)
                if rc != self.c(s, i, 'rc'):
                    self.put(s, i, rc=rc)

    def rcset(self, st, i):
        """possible classes of the reply to the last command"""
        if self.c(st, i, 'cmd') == 'none':
            return frozenset()
        rcv = self.c(st, i, 'rcv')
        return classes_of(st.vals(rcv)) if is_num(rcv) else self.c(st, i, 'rc')

    def reply_code(self, st, p):
        """number at the start of a reply"""
        lab = p.src[1]
        if not (isinstance(p.off, int) and p.off == 0) or not (st.ge0(sub(p.n, 3))):
            return None
        for i in self.mine(st):
            if self.c(st, i, 'cmd') == lab and is_num(self.c(st, i, 'rcv')):
                return self.c(st, i, 'rcv')
        return sym(('stoi', p.src, 0, 3), -99, 999)

    def purge(self, I, s):
        """forget closed connections nobody refers to"""
        refs = set()
        for k, o in s.h.items():
            if k[0] == 'N':
                continue
            deps_of(o.val, refs)
        for i in self.conns(s):
            if self.c(s, i, 'st') == 'closed':
                f = self.fd(i).t[0][0]
                if f not in refs:
                    del s.h[('N', i)]
                    s.cons.pop(f, None)

    # ------------------------------------------------------------ text sent
    def grow(self, st, i, X):
        """the text sent since the last reply, with X appended"""
        t = concat(self.c(st, i, '!cur'), X)
        if self.o['content'] or self.c(st, i, 'cmd') != 'data' or not t.p:
            return t
        # only how the message content ends matters here
        k = t.p[-1]
        if not isinstance(k, bytes):
            return Str((Unk(-9, 1, frozenset(), None),))
        if len(t.p) == 1 and len(k) < 12:
            return t
        return Str((Unk(-9, 1, frozenset(), None), k[-5:]))

    def flush(self, I, st, i):
        """move a completely transmitted text into the pending command"""
        pt = self.c(st, i, '!pt')
        ps = self.c(st, i, 'ps')
        if pt.p and (st.eq(ps, slen(pt)) or not st.copy().assume_ge0(sub(sub(slen(pt), ps), 1))):
            self.put(st, i, cur=self.grow(st, i, pt), pt=EMPTY, ps=0)

    def unfinished(self, I, st, i, n):
        """called before anything else happens on the connection"""
        self.flush(I, st, i)
        pt = self.c(st, i, '!pt')
        if pt.p:
            t = st.copy()
            sure = t.assume_ge0(sub(slen(pt), add(self.c(st, i, 'ps'), 1)))
            if sure:
                self.bad(I, st, 'C34', 'short-write', 'a send that transmitted only a part of the data is not continued', n)
                self.bad(I, st, 'C12', 'short-write', 'a send that transmitted only a part of the data is taken for a success', n)
            self.put(st, i, cur=self.grow(st, i, pt), pt=EMPTY, ps=0)

    def checks_out(self, I, st, i, X, tls, n):
        """rules about bytes handed to the connection"""
        self.count('writes')
        tags = str_tags(X)
        c = self.c
        if not c(st, i, 'nb') and not c(st, i, 'sto'):
            self.bad(I, st, 'C32', 'send-limit', 'a blocking %s has no time limit' % ('TLS write' if tls else 'send'), n)
        if c(st, i, 'st') == 'new':
            self.bad(I, st, 'C12', 'not-connected', 'data is sent although the connection was not established', n)
        if c(st, i, 'quit'):
            self.bad(I, st, 'C16', 'after-quit', 'something is sent after QUIT', n)
        secret = [t for t in (self.USER, self.PW) if t in tags]
        if not tls:
            if self.secure and secret and not self.gget(st, 'plain'):
                self.bad(I, st, 'C01', 'clear-credentials', 'the %s is written to the plain socket' % ('password' if self.PW in tags else 'user name'), n)
            if c(st, i, 'tls'):
                self.bad(I, st, 'C03', 'clear-after-tls', 'data is written in clear after the TLS negotiation was started', n)
            elif self.forced:
                self.bad(I, st, 'C03', 'clear-forced', 'the forced-TLS client writes in clear', n)
        else:
            why = self.unverified(st, i)
            if why:
                self.bad(I, st, 'C02', 'unverified', 'data is written to a TLS session although %s' % why, n)
                if secret:
                    self.bad(I, st, 'C01', 'unverified', 'credentials are written to a TLS session although %s' % why, n)
            if not c(st, i, 'host'):
                vr = c(st, i, 'vr')
                if not (self.gget(st, 'selfok') and is_num(vr) and st.const(vr) == 18):
                    self.bad(I, st, 'C38', 'no-name', 'a TLS session is used whose certificate was not checked against the configured server name', n)

    def unverified(self, st, i):
        c = self.c
        if c(st, i, 'tls') != 'up':
            return 'the handshake was not completed'
        if c(st, i, 'cert') != True:
            return 'no peer certificate was presented' if c(st, i, 'cert') is False else 'nothing established that the peer presented a certificate'
        vr = c(st, i, 'vr')
        ok = {0, 18} if self.gget(st, 'selfok') else {0}
        if not is_num(vr):
            return None
        iv = st.vals(vr)
        for v in ok:
            iv = iv_remove(iv, v)
        if iv:
            return 'the chain verification result may be %d' % iv[0][0]
        return None

    def step(self, st, i, X):
        """name of the step a piece of output belongs to"""
        ph = self.c(st, i, 'cmd')
        if self.quitting(X):
            return 'quit'
        if ph == 'data' and 354 in self.c(st, i, 'rc'):
            if lead(X) == b'\r\n.\r\n':
                return 'eod'
            return HEADSTEP.get(verb(X), 'body') if b'--' not in lead(X)[:4] else 'body'
        if ph == 'auth' and self.c(st, i, 'mech') == 'LOGIN' or ph == 'authuser':
            if lead(X)[:4].upper() != b'QUIT':
                return 'auth'
        return NORM.get(verb(X), 'other')

    def send_piece(self, I, st, i, X, tls, n, partial):
        """X is handed to the connection; -> [(state, number of bytes taken or None)]"""
        out = []
        pt = self.c(st, i, '!pt')
        cont = False
        if pt.p:
            self.flush(I, st, i)
            pt = self.c(st, i, '!pt')
            if pt.p:
                rest = I.norm(st, I.cut(st, pt, self.c(st, i, 'ps'))[1])
                if not rest.p:
                    self.put(st, i, cur=self.grow(st, i, pt), pt=EMPTY, ps=0)
            pt = self.c(st, i, '!pt')
            if pt.p:
                cont = rest == I.norm(st, X)
                if not cont:
                    self.unfinished(I, st, i, n)
        if not cont:
            if self.gget(st, 'fail') and self.quitting(X):
                # the client gives up: what it was doing is abandoned
                self.put(st, i, cur=EMPTY)
            self.checks_out(I, st, i, X, tls, n)
            if self.o['content'] and self.c(st, i, 'cmd') == 'data':
                self.slices(I, st, i, X, n)
        first = not self.c(st, i, '!cur').p and not cont
        if first:
            self.first_piece(I, st, i, X, n)
        L = slen(X)
        bad = st.copy()
        whole = pt if cont else X
        if self.c(st, i, '!cur').p and self.c(st, i, 'cmd') != 'data':
            whole = self.c(st, i, '!cur')
        self.failed(bad, 'send:' + self.step(st, i, whole))
        if self.step(st, i, X) == 'quit':
            # failures while saying goodbye are exempt
            self.gset(bad, fail=self.gget(st, 'fail'))
        self.err(bad)
        self.put(bad, i, cur=EMPTY, pt=EMPTY, ps=0)
        if self.step(st, i, X) == 'quit':
            self.put(bad, i, quit=True)
        if partial and not (isinstance(L, int) and L == 1):
            r = fresh('sent', 1, MAXLEN)
            ok = st.assume_ge0(sub(L, r))
            if cont:
                ps = add(self.c(st, i, 'ps'), r)
                self.put(st, i, ps=ps)
            else:
                self.put(st, i, pt=X, ps=r)
            self.flush(I, st, i)
            if ok:
                out.append((st, r))
        else:
            self.put(st, i, cur=self.grow(st, i, X))
            out.append((st, L))
        out.append((bad, None))
        return out

    # ---- texts transmitted in several slices
    def origin(self, st, g):
        """(what the text a slice belongs to starts with, position of the slice from there, length from there)"""
        src, off, tot = g.src, g.off, src_len(g.src)
        while src[0] == 'cat' and src[1].p:
            h = src[1].p[0]
            if isinstance(h, Seg):
                src, off, tot = h.src, add(h.off, off), add(h.off, tot)
                continue
            if isinstance(h, Unk):
                return h, off, tot
            break
        return Seg(src, 0, src_len(src)), off, tot

    @staticmethod
    def same(a, b):
        return isinstance(a, Unk) and isinstance(b, Unk) and a.id == b.id or isinstance(a, Seg) and isinstance(b, Seg) and a.src == b.src

    def watched(self, g):
        """slices of the body, of the attachments or of a text assembled from several parts"""
        if not isinstance(g, Seg):
            return False
        return g.src[0] == 'cat' or self.text_of(g.src) == 'body'

    def slices(self, I, st, i, X, n):
        """every slice of a text continues where the last one ended"""
        c = self.c
        X = I.norm(st, X)
        if not X.p:
            return
        def off_by(d, more, less):
            for sign, rule, msg in ((1, 'dropped', more), (-1, 'twice', less)):
                t = st.copy()
                if t.assume_ge0(sub(mulc(d, sign), 1)):
                    self.bad(I, t, 'C34', rule, msg, n, I.exact(t, d))
                    return
        a = X.p[0]
        if c(st, i, 'popen'):
            ps = c(st, i, '!psrc').p[0]
            pos, tot = c(st, i, 'pos'), c(st, i, 'ptot')
            o = self.origin(st, a) if isinstance(a, Seg) else (a if isinstance(a, Unk) else None, 0, None)
            self.count('slice obligations')
            if self.same(o[0], ps):
                off_by(sub(o[1], pos), 'a part of the text is left out between two pieces of the message', 'a part of the text is sent twice')
            else:
                t = st.copy()
                left = sub(tot, pos)
                if t.assume_ge0(sub(left, 1)):
                    # the length of the text may be anything, whatever it was made of
                    ok = deps_of(tot)
                    self.bad(I, t, 'C34', 'dropped', 'the rest of a text that is sent in pieces is left out', n, all(x in ok or not SYMS[x].approx for x in deps_of(left)))
        elif self.watched(a):
            self.count('slice obligations')
            off_by(self.origin(st, a)[1], 'the start of a text that is sent in pieces is left out', '')
        segs = [k for k, g in enumerate(X.p) if self.watched(g)]
        if not segs:
            self.put(st, i, popen=False, psrc=EMPTY, pos=0, ptot=0)
            return
        k = segs[-1]
        g = X.p[k]
        root, off, tot = self.origin(st, g)
        end = add(off, g.n)
        for x in X.p[k + 1:]:
            end = add(end, slen(Str((x,))))
        if st.ge0(sub(end, tot)):
            self.put(st, i, popen=False, psrc=EMPTY, pos=0, ptot=0)
        else:
            self.put(st, i, popen=True, psrc=Str((root,)), pos=end, ptot=tot)

    def text_of(self, src):
        """role of a user text of the message, None for anything else"""
        while src[0] == 'f' and src[1] in ('tr', 'map') and len(src[2].p) == 1 and isinstance(src[2].p[0], Seg):
            src = src[2].p[0].src
        return self.roles.get(src[1]) if src[0] == 'in' else None

    def first_piece(self, I, st, i, X, n):
        """a new command starts"""
        if self.o['logs']:
            self.log_rules(I, st, i, X, n)
        if self.step(st, i, X) == 'quit':
            pass

    def never_logged(self, st, i, lg, rx):
        """nothing of the reply is in the log"""
        return st.eq(lg, rx)

    def log_rules(self, I, st, i, X, n):
        cmd = self.c(st, i, 'cmd')
        log = self.gget(st, 'log')
        rx, lg = self.c(st, i, 'rx'), self.c(st, i, 'lg')
        if cmd not in ('none',) and not (is_num(rx) and st.const(rx) == 0) and cmd != 'data0':
            t = st.copy()
            if self.gget(st, 'fail') and self.quitting(X):
                pass
            elif not st.ge0(sub(1, lg)) and t.assume_ge0(sub(lg, 2)):
                self.bad(I, st, 'C33', 'reply-not-logged', 'the next step is taken although the reply to %s is not in the communication log' % cmd.upper(), n, I.exact(st, lg) or self.never_logged(st, i, lg, rx))
        s = self.step(st, i, X)
        if cmd == 'data' and 354 in self.c(st, i, 'rc') and s != 'eod':
            return
        if s in ('auth',):
            ok = any('AUTH' in x.upper() for x in log) or cmd in ('auth', 'authuser')
        elif s == 'eod':
            ok = any(x.startswith('\r\n.\r\n') for x in log)
        else:
            v = verb(X)
            ok = any(x.split(' ')[0].split('\r')[0].split(':')[0].upper() == v for x in log)
        self.count('log obligations')
        if not ok and (lead(X) or s == 'auth'):
            self.bad(I, st, 'C33', 'command-not-logged', 'a command (%s) is sent that was not recorded in the communication log first' % (verb(X) or s), n)
        if ok:
            self.gset(st, log=frozenset())

    # ------------------------------------------------------------ commands
    def commit(self, I, st, i, n, closing=False):
        """the text sent since the last reply is complete: classify it and check the protocol order"""
        self.unfinished(I, st, i, n)
        T = self.c(st, i, '!cur')
        if not T.p:
            return
        c = self.c
        cmd, rc = c(st, i, 'cmd'), c(st, i, 'rc')
        rc = self.rcset(st, i)
        T = I.norm(st, T)
        def order(ok, label):
            self.count('commands')
            if not ok:
                got = '' if cmd in ('none',) else ' (last step: %s, possible replies: %s)' % (cmd, ', '.join(sorted(map(str, rc))))
                self.bad(I, st, 'C07', 'order', '%s is sent out of order%s' % (label.upper(), got), n)
        label = None
        content = None
        if cmd == 'data' and not self.quitting(T):
            # message content
            label = 'eod'
            order(rc == {354}, 'message content')
            if not tail(T).endswith(b'\r\n.\r\n'):
                if tail(T) or not closing:
                    self.bad(I, st, 'C34', 'no-end', 'the reply to the message is awaited although the end-of-data marker was not sent', n, bool(T.p))
            content = T
            if self.o['content']:
                self.check_content(I, st, i, T, n)
        else:
            if self.o['content']:
                self.no_breaks(I, st, str_tags(T), 'a command', n)
            ld = lead(T)
            body = ld
            nl = [x for x in lits(T) if b'\n' in x]
            if not tail(T).endswith(b'\r\n') and not any(isinstance(p, Unk) for p in T.p):
                self.bad(I, st, 'C07', 'no-crlf', 'a command is sent without its line end', n)
            if len(T.p) and b'\r\n' in b''.join(x for x in T.p if isinstance(x, bytes))[:-2]:
                self.bad(I, st, 'C07', 'pipelined', 'a second command is sent without waiting for the reply to the first', n)
            v = verb(T)
            label = NORM.get(v)
            if label is None and cmd in ('auth', 'authuser') and c(st, i, 'mech') == 'LOGIN':
                label = 'authuser' if cmd == 'auth' else 'authpass'
            if label is None and cmd == 'auth':
                label = 'authpass'
            if label is None:
                if ld and v.isalpha():
                    self.bad(I, st, 'C07', 'unknown', 'an unknown command (%s) is sent' % v, n)
                else:
                    st.imprecise('unrecognised command text')
                    I.undec(st, 'unrecognised command text', n)
                label = 'other'
        tls = c(st, i, 'tls')
        if label == 'ehlo':
            order((cmd == 'greet' and rc == {220}) or (cmd == 'starttls' and tls == 'up' and rc == {220}), label)
            for m in ('PLAIN', 'LOGIN', 'XOAUTH2'):
                self.put(st, i, **{'adv_' + m: 0})
            self.put(st, i, stls=frozenset(), auth='no')
            self.gset(st, ehlo=True)
        elif label == 'starttls':
            order(cmd == 'ehlo' and rc == {250} and not tls, label)
        elif label == 'auth':
            order(cmd == 'ehlo' and rc == {250}, label)
            self.check_auth(I, st, i, T, n)
        elif label == 'authuser':
            order(cmd == 'auth' and rc == {334}, 'AUTH user name')
            self.check_cred_line(I, st, i, T, self.USER, n)
        elif label == 'authpass':
            order(cmd in ('auth', 'authuser') and rc == {334}, 'AUTH password')
            self.check_cred_line(I, st, i, T, self.PW, n)
        elif label == 'mail':
            order(cmd in ('ehlo', 'eod', 'rset') and rc == {250} or cmd in ('auth', 'authpass') and rc == {235} or cmd == 'mail' and rc == {501}, label)
            self.put(st, i, chain=True)
            for l in ('to', 'cc', 'bcc'):
                self.put(st, i, **{'lo_' + l: 0, 'hi_' + l: 0, 'n_' + l: 0, 'gap_' + l: False})
            self.check_mail(I, st, i, T, cmd, rc, n)
        elif label == 'rcpt':
            order(cmd in ('mail', 'rcpt') and rc == {250}, label)
            if not (cmd in ('mail', 'rcpt') and rc == {250}):
                self.put(st, i, chain=False)
            if self.o['rcpt']:
                self.check_rcpt(I, st, i, T, n)
        elif label == 'data':
            order(cmd == 'rcpt' and rc == {250}, label)
            if not (cmd == 'rcpt' and rc == {250}):
                self.put(st, i, chain=False)
            if self.o['rcpt']:
                self.check_data(I, st, i, n)
        elif label == 'eod':
            if rc != {354}:
                self.put(st, i, chain=False)
        elif label == 'quit':
            self.count('commands')
            self.accepted(st, i, rc)
            if self.o['codes']:
                self.keep_last(st, i)
            if c(st, i, 'quit'):
                self.bad(I, st, 'C16', 'twice', 'QUIT is sent twice on one connection', n)
            self.put(st, i, quit=True)
        if self.o['conv'] and cmd == 'ehlo' and label != 'starttls' and label != 'quit' and not tls and self.secure and not self.forced:
            self.check_starttls(I, st, i, label, n)
        if cmd == 'starttls' and label not in ('quit', 'starttls') and not tls and self.secure:
            self.bad(I, st, 'C04', 'refused', 'the session goes on in clear (%s) after STARTTLS failed' % label.upper(), n)
        if label in ('authuser', 'authpass'):
            pass
        self.begin_reply(st, i, label)
        self.put(st, i, cur=EMPTY)

    def keep_last(self, st, i):
        if self.c(st, i, 'last') is None:
            s, rx, rcv = self.last_step(st, i)
            self.put(st, i, last=s, lrx=0 if rx is None else rx, lrcv=0 if rcv is None else rcv)

    def quitting(self, T):
        return lead(T).upper().startswith(b'QUIT') and len(T.p) == 1

    def accepted(self, st, i, rc):
        if self.c(st, i, 'cmd') == 'eod' and rc == {250} and self.c(st, i, 'chain'):
            self.gset(st, acc=True)

    def begin_reply(self, st, i, label):
        """the reply stream of a command starts: texts of an earlier reply with the same name become stale"""
        sm = {('rep', label): ('rep', label + "'"), ('rep', label + "'"): ('rep', label + "''")}
        hit = False
        want = ('rep', label)
        for k, o in st.h.items():
            if self.mentions(o.val, label):
                hit = True
                break
        if hit:
            st.substitute({}, None, sm)
        else:
            for s in [s for s in st.cons if SYMS[s].key is not None and self.key_mentions(SYMS[s].key, label)]:
                del st.cons[s]
            st.facts = tuple(f for f in st.facts if not any(SYMS[s].key is not None and self.key_mentions(SYMS[s].key, label) for s, _ in f.t))
        if self.o['silent']:
            self.gset(st, waits=0)
        self.put(st, i, cmd=label, got=False, rx=0, lg=0, rcv=sym(('stoi', ('rep', label), 0, 3), -99, 999), rc=frozenset())
        self.put(st, i, rc=classes_of(st.vals(self.c(st, i, 'rcv'))))

    def key_mentions(self, k, label):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'rep' and k[1] == label:
                return True
            return any(self.key_mentions(x, label) for x in k)
        if isinstance(k, Str):
            return any(isinstance(p, Seg) and self.key_mentions(p.src, label) for p in k.p)
        if isinstance(k, Lin):
            return any(SYMS[s].key is not None and self.key_mentions(SYMS[s].key, label) for s, _ in k.t)
        return False

    def mentions(self, v, label):
        t = type(v)
        if t is Lin or t is Str:
            return self.key_mentions(v, label)
        if t is CBuf:
            return (v.txt is not None and self.key_mentions(v.txt, label)) or self.key_mentions(v.cap, label)
        if t is Rec:
            return any(self.mentions(x, label) for x in v.f.values())
        if t is Arr:
            return any(self.mentions(x, label) or self.key_mentions(k, label) for k, x in v.ex) or (v.tmpl is not None and self.mentions(v.tmpl, label))
        if t is tuple:
            return any(self.mentions(x, label) for x in v)
        return False

    # ------------------------------------------------------------ authentication
    def vague_text(self, T):
        return any(isinstance(p, (Unk, Rep)) for p in T.p)

    def flat(self, T):
        """the pieces of a text; whole user texts by name, encoded texts opened"""
        out = []
        for p in T.p:
            if isinstance(p, bytes):
                out.append(p)
            elif isinstance(p, Seg) and p.off == 0 and p.n == src_len(p.src):
                if p.src[0] == 'in':
                    out.append(('in', p.src[1]))
                elif p.src[0] == 'f':
                    out.append((p.src[1],) + tuple(tuple(self.flat(x)) for x in p.src[2:] if isinstance(x, Str)))
                elif p.src[0] == 'cat':
                    out.extend(self.flat(p.src[1]))
                else:
                    out.append(('src', p.src))
            else:
                out.append(None)
        return out

    def payload_ok(self, mech, pay):
        """is the text the credential text of the mechanism?"""
        u, p = ('in', self.USER), ('in', self.PW)
        def b64(*x):
            return [('b64', x)]
        if mech == 'PLAIN':
            return pay in (b64(b'\0', u, b'\0', p), b64(u, b'\0', u, b'\0', p))
        if mech == 'XOAUTH2':
            return pay == b64(b'user=', u, b'\1auth=Bearer ', p, b'\1\1')
        return False

    def check_auth(self, I, st, i, T, n):
        ld = lead(T)
        w = ld.split(b'\r')[0].split(b' ')
        mech = w[1].decode('latin1').upper() if len(w) > 1 else ''
        self.put(st, i, mech=mech)
        self.count('AUTH commands')
        creds = self.gget(st, 'creds')
        if creds is False:
            self.bad(I, st, 'C10', 'no-credentials', 'AUTH is sent although no credentials are configured', n)
            return
        known = mech in ('PLAIN', 'LOGIN', 'XOAUTH2')
        if self.o['conv']:
            if not known:
                self.bad(I, st, 'C11', 'mechanism', 'an authentication mechanism (%s) is used that is not supported' % mech, n)
            else:
                v = st.const(self.c(st, i, 'adv_' + mech))
                if v != 1:
                    if mech in self.tested or not self.tested:
                        self.bad(I, st, 'C11', 'not-advertised', 'AUTH %s is used although the server did not advertise it in its last EHLO reply' % mech, n, bool(self.tested))
                    else:
                        self.und.setdefault('C11', {})[('advertised', mech)] = 'how the mechanism is recognised in the EHLO reply is not understood'
                allowed = self.methods().get(creds)
                if allowed is not None and allowed != mech:
                    self.bad(I, st, 'C11', 'not-allowed', 'AUTH %s is used although the credentials only allow %s' % (mech, allowed), n)
        if not known:
            return
        k = len(b'AUTH ' + mech.encode())
        rest = concat(lit(ld[k:]), Str(T.p[1:])) if len(T.p) > 1 else lit(ld[k:])
        pay = self.flat(rest)
        if pay and isinstance(pay[0], bytes):
            pay[0] = pay[0].lstrip(b' ')
        if pay and isinstance(pay[-1], bytes) and pay[-1].endswith(b'\r\n'):
            pay[-1] = pay[-1][:-2]
        pay = [x for x in pay if x != b'']
        if pay and not self.payload_ok(mech, pay):
            self.bad(I, st, 'C10', 'text', 'the credential text of AUTH %s does not consist of the configured user name and password in the form the mechanism requires' % mech, n,
                     not self.vague_text(T) and None not in pay)

    def methods(self):
        """value of the credentials' method -> the one mechanism it allows, None for any"""
        names = {'kImplicit': None, 'kPlain': 'PLAIN', 'kLogin': 'LOGIN', 'kXOauth2': 'XOAUTH2'}
        for k, v in self.P.enums.items():
            if v['q'].endswith('::RecommendedAuthenticationMethod'):
                return {x['v']: names.get(x['n'], 'nothing that is implemented') for x in v['c']}
        return {}

    def check_cred_line(self, I, st, i, T, which, n):
        mech = self.c(st, i, 'mech')
        pay = self.flat(T)
        if pay and isinstance(pay[-1], bytes) and pay[-1].endswith(b'\r\n'):
            pay[-1] = pay[-1][:-2]
        pay = [x for x in pay if x != b'']
        ok = pay == [('b64', (('in', which),))] if mech == 'LOGIN' else self.payload_ok(mech, pay)
        self.count('credential lines')
        if not ok:
            self.bad(I, st, 'C10', 'text', 'the text sent for AUTH %s is not the encoded %s' % (mech, 'user name' if which == self.USER and mech == 'LOGIN' else 'password' if mech == 'LOGIN' else 'credential text'), n,
                     not self.vague_text(T) and None not in pay)

    # hooks for the content of commands
    def check_mail(self, I, st, i, T, cmd, rc, n):
        self.count('MAIL commands')
        if cmd in ('auth', 'authpass') and rc == {235}:
            self.put(st, i, auth='ok')
        if self.gget(st, 'creds') is not False and self.c(st, i, 'auth') != 'ok':
            if not (self.secure and not self.forced and not self.c(st, i, 'tls')):
                self.bad(I, st, 'C10', 'no-auth', 'MAIL is sent although credentials are configured and the server did not accept an authentication on this connection', n)
        if self.o['rcpt']:
            ads = [a for a in map(self.address_of, self.flat(T)) if a and a[2] == self.email]
            if [a[0] for a in ads] != ['from']:
                self.bad(I, st, 'C08', 'sender', 'MAIL FROM does not carry exactly the From address of the message', n, not self.vague_text(T) and None not in self.flat(T))
        if self.gget(st, 'had') and (self.gget(st, 'new') or self.gget(st, 'ehlo')):
            self.bad(I, st, 'C17', 'no-reuse', 'the open session of the client is not reused for the next mail', n)

    def address_of(self, x):
        """(role, element index, field) of a text of the message, None for anything else"""
        src = x[1] if isinstance(x, tuple) and x[0] == 'src' else x
        if not isinstance(src, tuple):
            return None
        if src[0] == 'el':
            r = self.roles.get(src[1])
            return (r, src[2], src[3]) if r else None
        if src[0] == 'in' and '.' in src[1]:
            nm, f = src[1].rsplit('.', 1)
            r = self.roles.get(nm)
            return (r, 0, f) if r else None
        return None

    def check_rcpt(self, I, st, i, T, n):
        self.count('RCPT commands')
        fl = self.flat(T)
        exact = not self.vague_text(T) and None not in fl
        ads = [a for a in map(self.address_of, fl) if a]
        form = len(fl) == 3 and isinstance(fl[0], bytes) and isinstance(fl[2], bytes) and fl[0].upper().replace(b' ', b'') == b'RCPTTO:<' and fl[2] == b'>\r\n'
        if len(ads) != 1 or not form or ads[0][2] != self.email:
            self.bad(I, st, 'C08', 'rcpt-text', 'a RCPT TO command does not name exactly the e-mail address of one recipient', n, exact)
            for l in ('to', 'cc', 'bcc'):
                self.put(st, i, **{'gap_' + l: True})
            return
        role, k, f = ads[0]
        if role not in ('to', 'cc', 'bcc'):
            self.bad(I, st, 'C08', 'wrong-recipient', 'RCPT TO names the %s address of the message, which is not a recipient' % role, n)
            return
        lo, hi = self.c(st, i, 'lo_' + role), self.c(st, i, 'hi_' + role)
        cnt = self.c(st, i, 'n_' + role)
        if st.eq(lo, hi):
            lo, hi = k, add(k, 1)
        elif st.eq(k, hi):
            hi = add(k, 1)
        elif st.eq(k, sub(lo, 1)):
            lo = k
        elif st.ge0(sub(k, lo)) and st.gt0(sub(hi, k)):
            self.bad(I, st, 'C08', 'twice', 'RCPT TO is sent twice for a recipient of the %s list' % role.capitalize(), n, I.exact(st, k, lo, hi))
        else:
            self.put(st, i, **{'gap_' + role: True})
        cnt = add(cnt, 1)
        self.put(st, i, **{'lo_' + role: lo, 'hi_' + role: hi, 'n_' + role: cnt})

    def check_data(self, I, st, i, n):
        self.count('DATA commands')
        for role in ('to', 'cc', 'bcc'):
            want = self.lists.get(role)
            if want is None:
                continue
            lo, hi, cnt = self.c(st, i, 'lo_' + role), self.c(st, i, 'hi_' + role), self.c(st, i, 'n_' + role)
            gap = self.c(st, i, 'gap_' + role)
            nm = role.capitalize()
            self.count('recipient list obligations')
            for x, sign, what in ((cnt, 1, 'not every recipient of the %s list was named in a RCPT TO command' % nm), (cnt, -1, 'more RCPT TO commands were sent than the %s list has recipients' % nm)):
                d = sub(mulc(sub(want, x), sign), 1)
                t = st.copy()
                if t.assume_ge0(d):
                    self.bad(I, t, 'C08', 'missing' if sign == 1 else 'extra', 'DATA is sent although ' + what, n, I.exact(t, x))
                    break
            else:
                if gap or not (st.eq(sub(hi, lo), cnt)) or not (st.eq(lo, 0) or st.eq(cnt, 0)):
                    self.und.setdefault('C08', {})[('order', role)] = 'the order of the RCPT commands is not understood'

    def leaves(self, t):
        """literals and user texts of a text, in order"""
        for p in t.p:
            if isinstance(p, Seg) and p.src[0] == 'f' and p.src[1] in ('map', 'toUpper', 'toLower') and isinstance(p.off, int) and p.off == 0:
                yield from self.leaves(p.src[2])
            elif isinstance(p, Seg) and p.src[0] == 'cat' and isinstance(p.off, int) and p.off == 0:
                yield from self.leaves(p.src[1])
            else:
                yield p

    def role_tags(self):
        """tag -> what it is, for the texts of the message"""
        out = {}
        for nm, r in self.roles.items():
            if r in ('from', 'to', 'cc', 'bcc'):
                out[nm + '.' + self.email] = (r, 'e-mail address'); out[nm + '.' + self.display] = (r, 'display name')
            elif r == 'attachments':
                out[nm + '.' + self.filename] = (r, 'file name'); out[nm + '.' + self.attname] = (r, 'name'); out[nm + '.' + self.attid] = (r, 'content id')
            else:
                out[nm] = (r, r)
        return out

    def said(self, t):
        rt = self.role_tags()
        return {rt[x] for x in str_tags(t) if x in rt}

    def header_lines(self, T):
        """[(field name, value)] and the text after the header, None when its end is not found"""
        cur, out = [], []
        for k, p in enumerate(T.p):
            if not isinstance(p, bytes):
                if isinstance(p, Rep):
                    return out, None
                cur.append(p)
                continue
            xs = p.split(b'\r\n')
            for j, x in enumerate(xs):
                if j:
                    if not cur:
                        rest = b'\r\n'.join(xs[j:])
                        return out, Str(((rest,) if rest else ()) + T.p[k + 1:])
                    if isinstance(cur[0], bytes) and cur[0][:1] in (b' ', b'\t') and out:
                        out[-1] = (out[-1][0], out[-1][1] + cur)
                    elif isinstance(cur[0], bytes) and b':' in cur[0]:
                        nm, v = cur[0].split(b':', 1)
                        out.append((nm.strip().lower().decode('latin-1'), [v.lstrip()] + cur[1:]))
                    else:
                        out.append(('', cur))
                    cur = []
                if x:
                    cur.append(x)
        return out, None

    def check_content(self, I, st, i, T, n):
        self.count('messages transmitted')
        bad = lambda *a: self.bad(I, st, *a)
        tags = str_tags(T)
        rt = self.role_tags()
        # C09
        for x in sorted((x for x in tags if rt.get(x, ('',))[0] == 'bcc'), key=str):
            bad('C09', 'bcc', 'the %s of a Bcc recipient is part of the transmitted message' % rt[x][1], n)
        if self.lists.get('bcc') != 0:
            self.count('messages with Bcc recipients')
        # C36
        self.no_breaks(I, st, tags, 'the transmitted message', n)
        # C35
        self.check_dots(I, st, T, n)
        # C34
        seen = {rt[x] for x in tags if x in rt}
        self.seen |= seen | {x for x in tags if isinstance(x, tuple) and x[0] == 'fn'}
        lines, rest = self.header_lines(T)
        if rest is None:
            self.und.setdefault('C34', {})[('header',)] = 'the end of the message header is not found'
            return
        names = [a for a, b in lines]
        def possible(want):
            t = st.copy()
            return t.assume_ge0(sub(want, 1))
        for role in ('from', 'to', 'cc', 'subject'):
            nm = role.capitalize()
            want = 1 if role in ('from', 'subject') else self.lists.get(role, 1)
            vals = [Str(tuple(v)) for a, v in lines if a == role]
            self.count('header obligations')
            if not possible(want):
                continue
            if not vals:
                if '' in names:
                    self.und.setdefault('C34', {})[('line', role)] = 'a header line is not understood'
                else:
                    bad('C34', 'dropped', 'the %s header field is not transmitted' % nm, n)
                continue
            if len(vals) > 1:
                bad('C34', 'twice', 'the %s header field is transmitted %d times' % (nm, len(vals)), n)
            said = self.said(vals[0])
            need = [(role, role)] if role == 'subject' else [(role, 'e-mail address')]
            for x in need:
                if x not in said and not (role == 'subject' and not possible(self.text_len(st, role))):
                    bad('C34', 'dropped', 'the %s header field does not carry the %s of the message' % (nm, nm + (' ' + x[1] if x[1] != role else '')), n)
            if role != 'subject' and (role, 'display name') not in said:
                for src, l in self.display_given(role):
                    t = st.copy()
                    if t.assume_ge0(sub(l, 1)):
                        self.bad(I, t, 'C34', 'dropped', 'the %s header field does not carry the display name of the message' % nm, n, I.exact(t, l))
            for x in said:
                if x[0] != role:
                    bad('C34', 'wrong', 'the %s header field carries the %s %s' % (nm, x[0].capitalize(), x[1]), n)
            got = []
            for p in self.leaves(vals[0]):
                if isinstance(p, bytes):
                    continue
                got.append(p)
                if isinstance(p, Seg) and p.src[0] in ('in', 'el'):
                    cut = sub(src_len(p.src), p.n)
                    t = st.copy()
                    if t.assume_ge0(sub(cut, 1)):
                        self.bad(I, t, 'C34', 'cut', 'a text of the %s header field is not transmitted completely' % nm, n, I.exact(t, cut))
            src = [p.src for p in got if isinstance(p, Seg)]
            if len(set(src)) < len(src):
                bad('C34', 'twice', 'a text is transmitted twice in the %s header field' % nm, n)
        # the body and the attachments
        for p in self.leaves(rest):
            if isinstance(p, Rep):
                break
        parts = [(p, {rt[x] for x in part_tags(p) if x in rt}) for p in rest.p if not isinstance(p, bytes)]
        bodies = [k for k, (p, m) in enumerate(parts) if ('body', 'body') in m]
        self.count('body obligations')
        if not bodies and possible(self.text_len(st, 'body')):
            bad('C34', 'dropped', 'the body is not transmitted', n)
        if len(bodies) > 1 and not any(isinstance(p, (Rep,)) for p, m in parts):
            ps = [parts[k][0] for k in bodies]
            one = all(isinstance(p, Seg) for p in ps) and all(a.src == b.src and st.eq(add(a.off, a.n), b.off) for a, b in zip(ps, ps[1:]))
            if not one:
                bad('C34', 'twice', 'the body is transmitted twice', n)
        for k, (p, m) in enumerate(parts):
            if any(x[0] == 'attachments' for x in m) and bodies and k < bodies[0]:
                bad('C34', 'order', 'an attachment is transmitted before the body', n)
            for x in m:
                if x[0] not in ('body', 'attachments'):
                    bad('C34', 'wrong', 'the %s %s is transmitted after the message header' % (x[0].capitalize(), x[1]), n)
        att = self.lists.get('attachments')
        if att is not None and att != 0 and possible(att):
            self.count('attachment obligations')
            self.atts = (I, st.copy(), n)
            if not any(x[0] == 'attachments' for x in seen):
                t = st.copy(); t.assume_ge0(sub(att, 1))
                self.bad(I, t, 'C34', 'dropped', 'the attachments are not transmitted', n)

    # ---- dot transparency
    def check_dots(self, I, st, T, n):
        pieces = [(k, p) for k, p in enumerate(T.p) if not isinstance(p, bytes)]
        for k, p in pieces:
            self.check_body_piece(I, st, p, T.p[k - 1] if k else b'\n', n)

    def check_body_piece(self, I, st, p, before, n):
        if isinstance(p, Rep):
            for a in p.alts:
                for k, q in enumerate(a.p):
                    if not isinstance(q, bytes):
                        self.check_body_piece(I, st, q, a.p[k - 1] if k else None, n)
            return
        if ('body', 'body') not in self.said(Str((p,))):
            return
        if isinstance(p, Seg) and p.src[0] == 'cat':
            for k, q in enumerate(p.src[1].p):
                if not isinstance(q, bytes):
                    self.check_body_piece(I, st, q, p.src[1].p[k - 1] if k else None, n)
            return
        if self.o.get('nodots'):
            return
        und = self.und.setdefault('C35', {})
        self.count('body texts')
        if not isinstance(p, Seg):
            und[('body',)] = 'how the body is transformed is not understood'
            return
        src = p.src
        if src[0] == 'in':
            self.bad(I, st, 'C35', 'raw', 'the body is transmitted without protecting lines that start with a dot', n)
            return
        if src[0] != 'f' or src[1] not in ('tr', 'map') or len(src[2].p) != 1 or not isinstance(src[2].p[0], Seg) or src[2].p[0].src[0] != 'in' or src[2].p[0].off != 0 or \
                not st.eq(src[2].p[0].n, src_len(src[2].p[0].src)):
            und[('body',)] = 'how the body is transformed is not understood'
            return
        tab = TRANS[src[3]] if src[1] == 'tr' else {(0, c): (0, bytes((src[3][c],))) for c in range(1, 256)}
        sol = True
        if isinstance(p.off, int) and p.off == 0 and isinstance(before, bytes):
            sol = before.endswith(b'\n')
        self.count('transducers compared')
        for prop, rule, msg in stuffing(tab, sol):
            self.bad(I, st, prop, rule, msg, n)

    def text_len(self, st, role):
        for nm, r in self.roles.items():
            if r == role:
                return src_len(('in', nm))
        return 1

    def display_given(self, role):
        """the display name of a header field with one address"""
        for nm, r in self.roles.items():
            if r == role and isinstance(self.lists.get(role, 1), int) and self.lists.get(role, 1) == 1:
                src = ('in', nm + '.' + self.display)
                yield src, src_len(src)

    def validated(self, st, name):
        """the whole text matched a pattern that admits no line break"""
        o = st.h.get(('K', 'match'))
        if o is None:
            return False
        out = False
        none = frozenset()
        for t, pat in o.val.v:
            ps = list(self.leaves(t))
            whole = len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].src[0] == 'in' and ps[0].src[1] == name and isinstance(ps[0].off, int) and ps[0].off == 0 and \
                st.eq(ps[0].n, src_len(ps[0].src))
            if isinstance(pat, frozenset):
                if whole and pat:
                    none |= pat
                elif name in str_tags(t):
                    out = 'maybe'
            elif whole:
                cs = regex_chars(pat)
                if cs is not None and not cs & BREAKS:
                    return True
        return True if none >= BREAKS else out

    def no_breaks(self, I, st, tags, where, n):
        rt = self.role_tags()
        self.count('line break obligations')
        for x in tags:
            if isinstance(x, tuple) and x[0] in ('raw', 'maybe'):
                r = rt.get(x[1])
                if r == ('body', 'body'):
                    continue
                ok = self.validated(st, x[1])
                if ok is True:
                    continue
                if r and r[1] == 'e-mail address' and not isinstance(self.lists.get(r[0], 1), int):
                    continue        # how addresses are validated is decided with single recipients
                what = '%s %s' % (r[0].capitalize(), r[1]) if r and r[0] != r[1] else r[0] if r else x[1]
                if x[0] == 'maybe' or ok:
                    self.und.setdefault('C36', {})[('cleaned', x[1])] = 'how line breaks are removed from the %s is not understood' % what
                    continue
                self.bad(I, st, 'C36', 'line-break', 'the %s is part of %s although it may contain line breaks' % (what, where), n)

    def check_starttls(self, I, st, i, label, n):
        """a command other than STARTTLS follows EHLO on a connection without TLS"""
        self.count('EHLO replies without STARTTLS')
        ev = self.c(st, i, 'stls')
        if 'found' in ev:
            self.bad(I, st, 'C04', 'ignored', 'the session goes on in clear (%s) although STARTTLS was found in the EHLO reply' % label.upper(), n)
            return
        pats = [p for p in (e[1] for e in ev if isinstance(e, tuple))]
        if not pats:
            if 'other' in ev:
                self.und.setdefault('C04', {})[('test', label)] = 'how STARTTLS is recognised in the EHLO reply is not understood'
            elif 'part' in ev:
                self.bad(I, st, 'C04', 'partial', 'the session goes on in clear (%s) although only a part of the EHLO reply was searched for STARTTLS' % label.upper(), n)
            else:
                self.late.append((I, st.copy(), 'C04', 'not-tested', 'the session goes on in clear (%s) although the EHLO reply was not searched for STARTTLS' % label.upper(), n))
            return
        for line in (b'\r\n250-STARTTLS\r\n', b'\r\n250 STARTTLS\r\n'):
            if not any(p in line for p in pats):
                self.bad(I, st, 'C04', 'form', 'the session goes on in clear (%s) although an EHLO reply with the line "%s" was not ruled out' % (label.upper(), line.strip().decode()), n)
        if 'last' not in ev:
            if self.last_tested:
                self.bad(I, st, 'C04', 'incomplete', 'the session goes on in clear (%s) although the last line of the EHLO reply was not received' % label.upper(), n)
            else:
                self.und.setdefault('C04', {})[('last', label)] = 'how the end of the EHLO reply is recognised is not understood'

    # ------------------------------------------------------------ replies
    def waits(self, I, st, n, what):
        self.count('waits')

    def receive(self, I, st, i, p, cap, n, tls):
        """the program reads from the connection -> [(state, count or -1/0)]"""
        self.commit(I, st, i, n)
        c = self.c
        if c(st, i, 'cmd') == 'none':
            self.begin_reply(st, i, 'greet')
        self.count('reads')
        if not tls and c(st, i, 'tls'):
            self.bad(I, st, 'C42', 'clear-after-tls', 'a reply is read from the plain socket after the TLS negotiation was started', n)
        elif not tls and self.forced:
            self.bad(I, st, 'C42', 'clear-forced', 'the forced-TLS client reads a reply in clear', n)
        elif tls and c(st, i, 'tls') != 'up':
            self.bad(I, st, 'C42', 'no-session', 'a reply is read from a TLS session whose handshake was not completed', n)
        out = []
        nb = c(st, i, 'nb')
        if not nb and not c(st, i, 'rto'):
            self.bad(I, st, 'C32', 'no-time-limit', 'a blocking receive has no time limit', n)
        none = st.copy()
        self.err(none)
        capc = st.const(cap) if is_num(cap) else None
        if capc is not None and capc <= 0:
            return [(st, 0)]
        label = c(st, i, 'cmd')
        sil = self.o['silent']
        if sil and sil[0] == label and self.gget(st, 'waits') >= sil[1]:
            # the server is silent (or gone) from here on
            self.one_more(I, none, label, n)
            return [(none, sil[2])]
        if True:
            k = fresh('got', 1, MAXLEN)
            if is_num(cap) and st.assume_ge0(sub(cap, k)):
                rx = c(st, i, 'rx')
                X = Str((Seg(('rep', label), rx, k),))
                if self.o['codes']:
                    self.put(st, i, got=True)
                self.put(st, i, rx=add(rx, k), **({'lg': add(c(st, i, 'lg'), k)} if self.o['logs'] else {}))
                try:
                    M.overwrite(I, st, p, X, n)
                    out.append((st, k))
                except Infeasible:
                    pass
        if sil:
            if sil[0] == label:
                self.one_more(I, st, label, n)
            return out
        out.append((none, fresh('got0', -1, 0)))
        return out

    ROUNDS = 16

    def one_more(self, I, st, label, n):
        """one more attempt to hear from a silent server"""
        self.count('rounds')
        w = self.gget(st, 'waits') + 1
        self.gset(st, waits=w)
        if w > self.ROUNDS:
            self.bad(I, st, 'C32', 'endless', 'the wait for the %s does not end: with a time limit of one second the client is still waiting after %d rounds without data' % (
                'connection' if label == 'connect' else 'reply to ' + label.upper() if label != 'greet' else 'greeting', self.ROUNDS), n)
            raise Infeasible('endless')

    def limit_ok(self, s, p, sec=None):
        """a struct timeval (or a number of seconds): not far beyond the configured limit of one second"""
        if not self.o['silent']:
            return True
        return s.bounds(sec)[0] <= 10 if is_num(sec) else True

    # ------------------------------------------------------------ sockets
    def x_socket(self, I, s, n, vs):
        bad = s.copy()
        self.failed(bad, 'socket'); self.err(bad)
        i = self.newconn(s)
        self.count('sockets')
        self.gset(s, new=True)
        return [(s, self.fd(i)), (bad, -1)]

    def x_connect(self, I, s, n, vs):
        i = self.usefd(I, s, vs[0], n, 'connect')
        if i is None:
            self.err(s)
            return [(s, -1)]
        bad = s.copy()
        self.failed(bad, 'connect'); self.err(bad)
        ok = s.copy()
        self.put(ok, i, st='open')
        if self.c(s, i, 'nb'):
            e = bad.h[('g', 'errno')].val
            bad.assume_ne0(sub(e, EINPROGRESS))
            s.h[('g', 'errno')] = Obj('glob', EINPROGRESS)
            return [(ok, 0), (s, -1), (bad, -1)]
        return [(ok, 0), (bad, -1)]

    def x_select(self, I, s, n, vs):
        self.count('waits')
        if len(vs) > 4 and vs[4] is NULL:
            self.bad(I, s, 'C32', 'select', 'select waits without a time limit', n)
        if len(vs) > 4 and isinstance(vs[4], Ptr):
            v = I.peek(s, vs[4])
            if isinstance(v, Rec) and not self.limit_ok(s, vs[4], v.f.get('timeval::tv_sec', 0)):
                self.bad(I, s, 'C32', 'limit', 'select waits far longer than the configured time limit', n)
        sil = self.o['silent']
        if sil:
            if sil[0] != 'connect':
                return [(s, 1)]
            self.one_more(I, s, 'connect', n)
            if sil[2] < 0:
                s.h[('g', 'errno')] = Obj('glob', EINTR if self.gget(s, 'waits') == 1 else EIO)
            self.failed(s, 'connect-timeout')
            return [(s, sil[2])]
        timeout = s.copy(); self.failed(timeout, 'connect-timeout')
        intr = s.copy(); intr.h[('g', 'errno')] = Obj('glob', EINTR)
        bad = s.copy(); self.failed(bad, 'connect'); self.err(bad)
        bad.assume_ne0(sub(bad.h[('g', 'errno')].val, EINTR))
        return [(s, 1), (timeout, 0), (intr, -1), (bad, -1)]

    def x_poll(self, I, s, n, vs):
        self.count('waits')
        t = vs[2]
        if is_num(t) and s.bounds(t)[0] < 0:
            self.bad(I, s, 'C32', 'poll', 'poll waits without a time limit', n, s.bounds(t)[1] < 0)
        if is_num(t) and self.o['silent'] and s.bounds(t)[0] > 10000:
            self.bad(I, s, 'C32', 'limit', 'poll waits far longer than the configured time limit', n)
        sil = self.o['silent']
        if sil:
            if sil[0] != 'connect':
                return [(s, 1)]
            self.one_more(I, s, 'connect', n)
            self.failed(s, 'connect-timeout')
            return [(s, 0)]
        timeout = s.copy(); self.failed(timeout, 'connect-timeout')
        bad = s.copy(); self.failed(bad, 'connect'); self.err(bad)
        return [(s, 1), (timeout, 0), (bad, -1)]

    def x_getsockopt(self, I, s, n, vs):
        i = self.usefd(I, s, vs[0], n, 'getsockopt')
        bad = s.copy(); self.failed(bad, 'getsockopt'); self.err(bad)
        if i is None:
            return [(bad, -1)]
        out = [(bad, -1)]
        if s.const(vs[2]) == SO_ERROR and self.c(s, i, 'st') == 'new':
            t = s.copy()
            I.store(t, vs[3], fresh('soerror', 1, 4095), n)
            self.failed(t, 'connect')
            out.append((t, 0))
            I.store(s, vs[3], 0, n)
            self.put(s, i, st='open')
        else:
            I.store(s, vs[3], fresh('sockopt', 0, 1 << 20), n)
        out.append((s, 0))
        return out

    def x_setsockopt(self, I, s, n, vs):
        i = self.usefd(I, s, vs[0], n, 'setsockopt')
        bad = s.copy(); self.failed(bad, self.pending(s, i, 'setsockopt')); self.err(bad)
        if i is None:
            return [(bad, -1)]
        opt = s.const(vs[2]) if is_num(vs[2]) else None
        if opt in (SO_RCVTIMEO, SO_SNDTIMEO):
            pos = True
            if isinstance(vs[3], Ptr):
                v = I.peek(s, vs[3])
                if isinstance(v, Rec):
                    sec, us = v.f.get('timeval::tv_sec', 0), v.f.get('timeval::tv_usec', 0)
                    if not self.limit_ok(s, vs[3], sec):
                        self.bad(I, s, 'C32', 'limit', 'the time limit of the socket is far longer than the configured one', n)
                    pos = (is_num(sec) and s.gt0(sec)) or (is_num(us) and s.gt0(us)) or not (is_num(sec) and is_num(us))
            self.put(s, i, **{'rto' if opt == SO_RCVTIMEO else 'sto': bool(pos)})
        return [(s, 0), (bad, -1)]

    def pending(self, s, i, what):
        """an operation on the descriptor fails: of which step?"""
        if not self.o['codes'] or i is None:
            return what
        cur = self.c(s, i, '!cur')
        if self.c(s, i, '!pt').p:
            cur = concat(cur, self.c(s, i, '!pt'))
        if cur.p:
            st = self.step(s, i, cur)
            if st in HEADSTEP.values() or st in ('body', 'eod'):
                st = 'eod'
            return 'reply:' + st
        cmd = self.c(s, i, 'cmd')
        return what if cmd in ('none', 'quit') else 'reply:' + cmd

    def x_fcntl(self, I, s, n, vs):
        i = self.usefd(I, s, vs[0], n, 'fcntl')
        bad = s.copy(); self.failed(bad, self.pending(s, i, 'fcntl')); self.err(bad)
        if i is None:
            return [(bad, -1)]
        op = s.const(vs[1]) if is_num(vs[1]) else None
        if op == F_GETFL:
            return [(s, 2 | (O_NONBLOCK if self.c(s, i, 'nb') else 0)), (bad, -1)]
        if op == F_SETFL and len(vs) > 2:
            f = s.const(vs[2]) if is_num(vs[2]) else None
            if f is None:
                I.undec(s, 'socket flags unknown', n)
                s.imprecise('socket flags')
            else:
                self.put(s, i, nb=bool(f & O_NONBLOCK))
            return [(s, 0), (bad, -1)]
        return [(s, 0), (bad, -1)]

    def x_ioctl(self, I, s, n, vs):
        i = self.usefd(I, s, vs[0], n, 'ioctl')
        bad = s.copy(); self.failed(bad, 'fcntl'); self.err(bad)
        I.undec(s, 'ioctl on a socket', n); s.imprecise('ioctl')
        return [(s, 0), (bad, -1)]

    def x_send(self, I, s, n, vs):
        return self.do_send(I, s, n, vs[0], vs[1], vs[2])

    x_write = x_send

    def do_send(self, I, s, n, fd, p, ln):
        i = self.usefd(I, s, fd, n, 'send')
        if i is None:
            self.err(s)
            self.failed(s, 'send:other')
            return [(s, -1)]
        X = self.text(I, s, p, ln, n)
        if X is None:
            return []
        out = []
        for t, k in self.send_piece(I, s, i, X, False, n, True):
            out.append((t, -1 if k is None else k))
        return out

    def text(self, I, s, p, ln, n):
        """the ln bytes at p"""
        r = M.buf_at(I, s, p, n, 'read')
        if r is None:
            return Str((new_unk(),))
        v, idx, _ = r
        if isinstance(v, CBuf):
            if v.txt is None:
                I.alarm(s, 'uninit', 'uninitialised data is sent', n)
                return None
            txt = v.txt
        elif isinstance(v, Str):
            txt = v
        else:
            s.imprecise('data sent is not a text')
            return Str((new_unk(getattr(v, 'tags', frozenset())),))
        txt = I.norm(s, txt)
        if not is_num(ln):
            s.imprecise('number of bytes sent unknown')
            return I.cut(s, txt, idx)[1]
        end = add(idx, ln)
        L = slen(txt)
        if s.ge0(sub(L, end)):
            if s.eq(end, L):
                return I.norm(s, I.cut(s, txt, idx)[1])
            return I.norm(s, I.cut3(s, txt, idx, end)[1])
        cap = v.cap if isinstance(v, CBuf) else add(L, 1)
        t = s.copy()
        if t.assume_ge0(sub(end, add(cap, 1))):
            I.alarm(t, 'oob-read', 'sends %s bytes from offset %s of a buffer of %s bytes' % (show_num(ln), show_num(idx), show_num(cap)), n, (end, cap))
        if not s.assume_ge0(sub(cap, end)):
            return None
        # bytes behind the text (terminator or garbage) are sent too
        x = I.cut(s, txt, idx)[1]
        return concat(x, Str((new_unk(frozenset(('nul',)), sub(end, L)),)))

    def x_recv(self, I, s, n, vs):
        i = self.usefd(I, s, vs[0], n, 'recv')
        if i is None:
            self.err(s)
            return [(s, -1)]
        return self.receive(I, s, i, vs[1], vs[2], n, False)

    x_read = x_recv

    def x_close(self, I, s, n, vs):
        v = vs[0]
        i = self.slot(s, v)
        if i is None or ('N', i) not in s.h:
            c = s.const(v) if is_num(v) else None
            if c is None or c >= 0:
                if c is None:
                    I.undec(s, 'close of an unknown descriptor', n)
                    s.imprecise('close of an unknown descriptor')
                else:
                    self.bad(I, s, 'C14', 'close-foreign', 'descriptor %d is closed, which the client does not own' % c, n)
            return [(s, -1)]
        if self.c(s, i, 'st') == 'closed':
            self.bad(I, s, 'C14', 'double-close', 'a socket is closed twice', n)
            return [(s, -1)]
        if self.c(s, i, 'owner') != self.gget(s, 'cur'):
            self.bad(I, s, 'C22', 'shared-close', 'a connection that belongs to another client object is closed', n)
        self.commit(I, s, i, n, True)
        self.finish_conn(I, s, i)
        self.put(s, i, st='closed')
        self.count('closes')
        return [(s, 0)]

    def finish_conn(self, I, s, i):
        rc = self.rcset(s, i)
        self.accepted(s, i, rc)
        if self.o['codes']:
            self.keep_last(s, i)
        # nothing of the session matters any more, except how it ended
        keep = {'cmd', 'rc', 'rx', 'rcv', 'quit', 'st', 'owner', 'tls'}
        self.put(s, i, cur=EMPTY, pt=EMPTY, ps=0, chain=False, auth='no', mech='', stls=frozenset(), nb=False, rto=False, sto=False, vr=0, cert='u', host=False,
                 lo_to=0, hi_to=0, lo_cc=0, hi_cc=0, lo_bcc=0, hi_bcc=0, n_to=0, n_cc=0, n_bcc=0, adv_PLAIN=0, adv_LOGIN=0, adv_XOAUTH2=0, lg=0)

    def x_shutdown(self, I, s, n, vs):
        self.usefd(I, s, vs[0], n, 'shutdown')
        return [(s, 0)]

    def x_sleep(self, I, s, n, vs):
        self.count('waits')
        if n.get('q', '').endswith('sleep') and not n.get('q', '').endswith(('usleep', 'nanosleep')) and vs and not self.limit_ok(s, None, vs[0]):
            self.bad(I, s, 'C32', 'limit', 'the client sleeps far longer than the configured time limit', n)
        return [(s, 0)]

    x_usleep = x_sleep
    x_nanosleep = x_sleep

    # ------------------------------------------------------------ name resolution
    def handle(self, I, s, n, what, rec, kind='handle'):
        oid = s.new_id('h')
        s.h[oid] = Obj(kind, rec, 'alive', I.site(s, n, what))
        return Ptr(oid)

    def x_getaddrinfo(self, I, s, n, vs):
        bad = s.copy(); self.failed(bad, 'resolve')
        addr = self.handle(I, s, n, 'address', Rec('sockaddr', {'sockaddr::sa_family': 2}), 'sub')
        p = self.handle(I, s, n, 'address list', Rec('addrinfo', {'addrinfo::ai_addr': addr, 'addrinfo::ai_next': NULL, 'addrinfo::ai_family': 2, 'addrinfo::ai_socktype': 1,
                                                                     'addrinfo::ai_protocol': 6, 'addrinfo::ai_addrlen': 16, 'addrinfo::ai_flags': 0, 'addrinfo::ai_canonname': NULL}))
        I.store(s, vs[3], p, n)
        e = fresh('gai', -100, 100)
        bad.assume_ne0(e)
        return [(s, 0), (bad, e)]

    def release(self, I, s, p, n, what, pid='C14'):
        """-> the released object or None"""
        if p is NULL:
            return None
        if not isinstance(p, Ptr):
            I.undec(s, 'release of an unknown %s' % what, n)
            s.imprecise('release of an unknown ' + what)
            return None
        o = s.h.get(p.obj)
        if o is None or o.status != 'alive':
            self.bad(I, s, pid, 'double-release', 'the %s is released twice' % what, n)
            raise Infeasible('double release')
        if o.kind not in ('handle',):
            self.bad(I, s, pid, 'bad-release', '%s released with the wrong function' % what, n)
            raise Infeasible('bad release')
        s.h[p.obj] = o.with_(status='freed')
        self.count('releases')
        return o

    def alive(self, I, s, p, n, what):
        """record of a library object, None for a null pointer"""
        if p is NULL:
            return None
        if p is UNDEF:
            I.deref(s, p, n, what)
            raise Infeasible('undef')
        if not isinstance(p, Ptr):
            s.imprecise('unknown ' + what)
            I.undec(s, 'unknown ' + what, n)
            return None
        o = s.h.get(p.obj)
        if o is None or o.status != 'alive':
            self.bad(I, s, 'C14', 'use-after-release', 'the %s is used after it was released' % what, n)
            raise Infeasible('released')
        return o.val if isinstance(o.val, Rec) else None

    def setrec(self, s, p, **kw):
        o = s.h[p.obj]
        r = o.val
        for k, v in kw.items():
            r = r.with_(k, v)
        s.h[p.obj] = o.with_(val=r)

    def x_freeaddrinfo(self, I, s, n, vs):
        if vs[0] is NULL:
            I.alarm(s, 'null', 'freeaddrinfo of a null list', n)
            return []
        o = self.release(I, s, vs[0], n, 'address list')
        return [(s, VOID)]

    def x_gethostbyname(self, I, s, n, vs):
        bad = s.copy(); self.failed(bad, 'resolve')
        oid = ('N2', 'hostent')
        s.h[('N2', 'addr')] = Obj('glob', CBuf(4, Str((Unk(-8, 4, frozenset(), None),)), False))
        s.h[('N2', 'list')] = Obj('glob', Arr(1, 0, 1, Ptr(('N2', 'addr'), (), True, 0), (), 'C'))
        s.h[oid] = Obj('glob', Rec('hostent', {'hostent::h_addr_list': Ptr(('N2', 'list'), (), True, 0), 'hostent::h_length': 4, 'hostent::h_addrtype': 2}))
        return [(s, Ptr(oid)), (bad, NULL)]

    # ------------------------------------------------------------ OpenSSL
    def x_OPENSSL_init_ssl(self, I, s, n, vs):
        return [(s, 1)]

    x_OPENSSL_init_crypto = x_OPENSSL_init_ssl

    def x_TLS_client_method(self, I, s, n, vs):
        return [(s, Ptr(('N2', 'method')))]

    x_TLS_method = x_TLS_client_method
    x_SSLv23_client_method = x_TLS_client_method

    def x_SSL_CTX_new(self, I, s, n, vs):
        bad = s.copy(); self.failed(bad, 'tls:ctx')
        return [(s, self.handle(I, s, n, 'TLS context', Rec('SSL_CTX', {'peer': Disc(False)}))), (bad, NULL)]

    def x_SSL_CTX_free(self, I, s, n, vs):
        self.release(I, s, vs[0], n, 'TLS context')
        return [(s, VOID)]

    def x_SSL_CTX_set_default_verify_paths(self, I, s, n, vs):
        self.alive(I, s, vs[0], n, 'TLS context')
        bad = s.copy(); self.failed(bad, 'tls:paths')
        return [(s, 1), (bad, 0)]

    x_SSL_CTX_load_verify_locations = x_SSL_CTX_set_default_verify_paths

    def x_SSL_CTX_set_verify(self, I, s, n, vs):
        if self.alive(I, s, vs[0], n, 'TLS context') is not None and is_num(vs[1]) and s.const(vs[1]) is not None:
            self.setrec(s, vs[0], peer=Disc(bool(s.const(vs[1]) & 1) and vs[2] is NULL))
        return [(s, VOID)]

    def x_SSL_CTX_set_options(self, I, s, n, vs):
        return [(s, 0)]

    def x_SSL_CTX_ctrl(self, I, s, n, vs):
        return [(s, 1)]

    x_SSL_CTX_set_cipher_list = x_SSL_CTX_ctrl

    def newssl(self, I, s, n, ctx, kind):
        return self.handle(I, s, n, 'TLS session', Rec('SSL', {'fd': -1, 'host': Disc(False), 'peer': Disc(ctx.f['peer'].v if ctx is not None else False), 'hs': Disc(0)}), kind)

    def x_BIO_new_ssl_connect(self, I, s, n, vs):
        ctx = self.alive(I, s, vs[0], n, 'TLS context')
        bad = s.copy(); self.failed(bad, 'tls:bio')
        ssl = self.newssl(I, s, n, ctx, 'sub')
        return [(s, self.handle(I, s, n, 'BIO', Rec('BIO', {'ssl': ssl}))), (bad, NULL)]

    def x_SSL_new(self, I, s, n, vs):
        ctx = self.alive(I, s, vs[0], n, 'TLS context')
        bad = s.copy(); self.failed(bad, 'tls:bio')
        return [(s, self.newssl(I, s, n, ctx, 'handle')), (bad, NULL)]

    def x_SSL_free(self, I, s, n, vs):
        self.release(I, s, vs[0], n, 'TLS session')
        return [(s, VOID)]

    def x_SSL_shutdown(self, I, s, n, vs):
        self.alive(I, s, vs[0], n, 'TLS session')
        return [(s, fresh('shut', -1, 1))]

    def x_BIO_free_all(self, I, s, n, vs):
        o = self.release(I, s, vs[0], n, 'BIO')
        if o is not None and isinstance(o.val, Rec) and isinstance(o.val.f.get('ssl'), Ptr):
            q = o.val.f['ssl'].obj
            if q in s.h and s.h[q].kind == 'sub':
                s.h[q] = s.h[q].with_(status='freed')
        return [(s, VOID)]

    def x_BIO_free(self, I, s, n, vs):
        if vs[0] is not NULL:
            self.bad(I, s, 'C14', 'bio-chain', 'only the first BIO of a chain is released', n)
        self.x_BIO_free_all(I, s, n, vs)
        return [(s, 1)]

    def ssl_of(self, I, s, p, n):
        r = self.alive(I, s, p, n, 'BIO')
        return r.f['ssl'] if r is not None and r.cls == 'BIO' else None

    def handshake(self, I, s, ssl, n):
        r = self.alive(I, s, ssl, n, 'TLS session')
        if r is None:
            return [(s, -1)]
        if r.f['hs'].v == 1:
            return [(s, 1)]
        i = self.slot(s, r.f['fd'])
        if i is None or ('N', i) not in s.h:
            I.undec(s, 'TLS handshake without a known socket', n)
            s.imprecise('TLS handshake without a known socket')
            return [(s, 1), (s.copy(), -1)]
        if self.c(s, i, 'st') == 'closed':
            self.bad(I, s, 'C14', 'use-after-close', 'a TLS handshake on a socket that was already closed', n)
            return []
        self.commit(I, s, i, n)
        cmd = self.c(s, i, 'cmd')
        rc = self.rcset(s, i)
        if cmd != 'none' and not (cmd == 'starttls' and rc == {220}):
            self.bad(I, s, 'C07', 'tls-order', 'the TLS negotiation starts out of order (last step: %s, possible replies: %s)' % (cmd, ', '.join(sorted(map(str, rc)))), n)
        self.count('handshakes')
        if not self.c(s, i, 'nb') and not self.c(s, i, 'rto'):
            self.bad(I, s, 'C32', 'no-time-limit', 'a blocking TLS handshake has no time limit', n)
        self.put(s, i, tls='started')
        bad = s.copy(); self.failed(bad, 'tls:handshake')
        peer = r.f['peer'].v
        self.put(s, i, tls='up', host=r.f['host'].v, cert=True if peer else 'u', vr=0 if peer else sym(('vr', i), 0, 100))
        if not peer:
            v = self.c(s, i, 'vr').t[0][0]
            s.cons.pop(v, None)
        self.setrec(s, ssl, hs=Disc(1))
        return [(s, 1), (bad, fresh('hs', -1, 0))]

    def x_BIO_ctrl(self, I, s, n, vs):
        cmd = s.const(vs[1])
        ssl = self.ssl_of(I, s, vs[0], n)
        if ssl is None:
            return [(s, -1 if cmd == 101 else 0)]
        if cmd == 110:      # BIO_C_GET_SSL
            I.store(s, vs[3], ssl, n)
            return [(s, 1)]
        if cmd == 101:      # BIO_C_DO_STATE_MACHINE
            return self.handshake(I, s, ssl, n)
        if cmd in (100, 119, 13, 11):   # set connect, set mode, flush...
            return [(s, 1)]
        return [(s, 1)]

    def x_SSL_connect(self, I, s, n, vs):
        return self.handshake(I, s, vs[0], n)

    x_SSL_do_handshake = x_SSL_connect

    def x_SSL_set_fd(self, I, s, n, vs):
        if self.alive(I, s, vs[0], n, 'TLS session') is None:
            return [(s, 0)]
        i = self.usefd(I, s, vs[1], n, 'SSL_set_fd')
        if i is not None:
            self.setrec(s, vs[0], fd=vs[1])
        return [(s, 1)]

    def x_SSL_ctrl(self, I, s, n, vs):
        self.alive(I, s, vs[0], n, 'TLS session')
        cmd = s.const(vs[1])
        if cmd == 55:
            bad = s.copy(); self.failed(bad, 'tls:name')
            return [(s, 1), (bad, 0)]
        return [(s, 1)]

    def name_ok(self, I, s, p, n):
        if p is NULL:
            return False
        t = I.norm(s, I.cstr(s, p, n))
        if any(isinstance(x, Unk) for x in t.p):
            return None
        return t == full(('in', 'server'))

    def bind(self, I, s, ssl, p, n):
        """the certificate will be checked for the given name: 1 or 0"""
        ok = self.name_ok(I, s, p, n)
        bad = s.copy()
        if isinstance(ssl, Ptr) and s.h[ssl.obj].val.f['hs'].v == 0:
            if ok is None:
                s.imprecise('name of the server unknown')
            self.setrec(s, ssl, host=Disc(ok is not False))
        return s, bad

    def x_SSL_set1_host(self, I, s, n, vs):
        if self.alive(I, s, vs[0], n, 'TLS session') is None:
            return [(s, 0)]
        s, bad = self.bind(I, s, vs[0], vs[1], n)
        self.failed(bad, 'tls:name')
        return [(s, 1), (bad, 0)]

    x_SSL_add1_host = x_SSL_set1_host

    def x_SSL_get0_param(self, I, s, n, vs):
        if self.alive(I, s, vs[0], n, 'TLS session') is None:
            return [(s, NULL)]
        return [(s, Ptr(vs[0].obj, ('$param',)))]

    def x_X509_VERIFY_PARAM_set1_host(self, I, s, n, vs):
        if not isinstance(vs[0], Ptr) or vs[0].path != ('$param',):
            return None
        s, bad = self.bind(I, s, Ptr(vs[0].obj), vs[1], n)
        self.failed(bad, 'tls:name')
        return [(s, 1), (bad, 0)]

    def x_X509_VERIFY_PARAM_set1_ip_asc(self, I, s, n, vs):
        """fails for every name that is not an IP address, so a failure alone is no error"""
        if not isinstance(vs[0], Ptr) or vs[0].path != ('$param',):
            return None
        s, bad = self.bind(I, s, Ptr(vs[0].obj), vs[1], n)
        return [(s, 1), (bad, 0)]

    def x_SSL_get1_peer_certificate(self, I, s, n, vs):
        r = self.alive(I, s, vs[0], n, 'TLS session')
        if r is None:
            return [(s, NULL)]
        i = self.slot(s, r.f['fd'])
        if r.f['hs'].v != 1 or i is None or ('N', i) not in s.h:
            return [(s, NULL)]
        out = []
        if self.c(s, i, 'cert') is not True:
            t = s.copy()
            self.put(t, i, cert=False)
            out.append((t, NULL))
        if self.c(s, i, 'cert') is not False:
            self.put(s, i, cert=True)
            out.append((s, self.handle(I, s, n, 'certificate', Rec('X509', {}))))
        return out

    x_SSL_get_peer_certificate = x_SSL_get1_peer_certificate

    def x_SSL_get0_peer_certificate(self, I, s, n, vs):
        out = []
        for t, p in self.x_SSL_get1_peer_certificate(I, s, n, vs):
            if isinstance(p, Ptr):
                t.h[p.obj] = t.h[p.obj].with_(kind='sub')
            out.append((t, p))
        return out

    def x_X509_free(self, I, s, n, vs):
        self.release(I, s, vs[0], n, 'certificate')
        return [(s, VOID)]

    def x_SSL_get_verify_result(self, I, s, n, vs):
        r = self.alive(I, s, vs[0], n, 'TLS session')
        if r is None:
            return [(s, 1)]
        i = self.slot(s, r.f['fd'])
        if r.f['hs'].v != 1 or i is None or ('N', i) not in s.h:
            return [(s, 0)]
        return [(s, self.c(s, i, 'vr'))]

    def x_X509_verify_cert_error_string(self, I, s, n, vs):
        return [(s, Ptr(('L', Str((Seg(('f', 'certerr', vs[0] if is_num(vs[0]) else 0), 0, sym(('len', ('certerr',)), 1, 200)),))), (), True, 0))]

    def x_ERR_get_error(self, I, s, n, vs):
        return [(s, fresh('sslerr', 0, 1 << 40))]

    def x_ERR_error_string(self, I, s, n, vs):
        return [(s, Ptr(('L', Str((Seg(('f', 'sslerr'), 0, sym(('len', ('sslerr',)), 1, 200)),))), (), True, 0))]

    def tls_write(self, I, s, ssl, X, n):
        r = self.alive(I, s, ssl, n, 'TLS session')
        i = self.slot(s, r.f['fd']) if r is not None else None
        if i is None or ('N', i) not in s.h:
            self.failed(s, 'send:other')
            return [(s, -1)]
        if self.c(s, i, 'st') == 'closed':
            self.bad(I, s, 'C14', 'use-after-close', 'a TLS write on a socket that was already closed', n)
            return []
        if self.c(s, i, 'owner') != self.gget(s, 'cur'):
            self.bad(I, s, 'C22', 'shared', 'a TLS session that belongs to another client object is used', n)
        out = []
        for t, k in self.send_piece(I, s, i, X, True, n, False):
            out.append((t, fresh('put', -1, 0) if k is None else k))
        return out

    def x_BIO_puts(self, I, s, n, vs):
        ssl = self.ssl_of(I, s, vs[0], n)
        if ssl is None:
            self.failed(s, 'send:other')
            return [(s, -1)]
        X = I.norm(s, I.cstr(s, vs[1], n))
        return self.tls_write(I, s, ssl, X, n)

    def x_BIO_write(self, I, s, n, vs):
        ssl = self.ssl_of(I, s, vs[0], n)
        if ssl is None:
            self.failed(s, 'send:other')
            return [(s, -1)]
        X = self.text(I, s, vs[1], vs[2], n)
        return [] if X is None else self.tls_write(I, s, ssl, X, n)

    def x_SSL_write(self, I, s, n, vs):
        X = self.text(I, s, vs[1], vs[2], n)
        return [] if X is None else self.tls_write(I, s, vs[0], X, n)

    def tls_read(self, I, s, ssl, p, cap, n):
        r = self.alive(I, s, ssl, n, 'TLS session')
        i = self.slot(s, r.f['fd']) if r is not None else None
        if i is None or ('N', i) not in s.h:
            return [(s, -1)]
        if self.c(s, i, 'st') == 'closed':
            self.bad(I, s, 'C14', 'use-after-close', 'a TLS read on a socket that was already closed', n)
            return []
        return self.receive(I, s, i, p, cap, n, True)

    def x_BIO_read(self, I, s, n, vs):
        ssl = self.ssl_of(I, s, vs[0], n)
        if ssl is None:
            if vs[0] is NULL and any(self.c(s, i, 'st') == 'open' for i in self.mine(s)):
                self.bad(I, s, 'C42', 'no-session', 'a reply is read from a TLS session that does not exist although the connection is open', n)
            return [(s, -1)]
        return self.tls_read(I, s, ssl, vs[1], vs[2], n)

    def x_SSL_read(self, I, s, n, vs):
        return self.tls_read(I, s, vs[0], vs[1], vs[2], n)

    def x_SSL_get_error(self, I, s, n, vs):
        return [(s, fresh('sslerror', 0, 12))]

    # ------------------------------------------------------------ calls of the client
    def begin(self, I, st, name):
        """sendMail is about to be called on the client object `name`"""
        had = any(self.c(st, i, 'st') != 'closed' and self.c(st, i, 'owner') == name for i in self.conns(st))
        self.gset(st, fail=0, acc=False, new=False, had=had, inn=True, cur=name, ehlo=False, waits=0, silent=False)

    def end(self, I, st, ret, n):
        """sendMail returned (or threw): overall rules"""
        self.count('ended calls')
        if st.exc is not None:
            self.bad(I, st, 'C27', 'exception', 'sendMail lets an exception escape (%s)' % getattr(st.exc, 'cls', '?'), n)
            return False
        own = [i for i in self.conns(st) if self.c(st, i, 'owner') == self.gget(st, 'cur')]
        for i in own:
            if self.c(st, i, 'st') != 'closed':
                self.commit(I, st, i, n, True)
        opened = [i for i in own if self.c(st, i, 'st') != 'closed']
        for i in opened:
            self.accepted(st, i, self.rcset(st, i))
        if not is_num(ret):
            st.imprecise('unknown result')
            I.undec(st, 'result of sendMail unknown', n)
            return True
        zero = st.copy()
        can0 = zero.assume_eq0(ret)
        fail = self.gget(st, 'fail')
        acc = self.gget(st, 'acc')
        if can0:
            if fail:
                self.bad(I, zero, 'C12', 'swallowed', 'sendMail may return 0 although an operation failed (%s)' % fail, n)
            if not acc:
                self.bad(I, zero, 'C06', 'not-accepted', 'sendMail may return 0 although the server did not accept the mail', n)
            if self.gget(st, 'batch'):
                if len(opened) != 1:
                    self.bad(I, zero, 'C17', 'batch-closed', 'after a successful sendMail in batch mode the connection is not open', n)
                elif self.c(st, opened[0], 'quit'):
                    self.bad(I, zero, 'C17', 'batch-quit', 'QUIT is sent after a mail in batch mode', n)
            else:
                if opened:
                    self.bad(I, zero, 'C17', 'left-open', 'without batch mode the connection is still open after a successful sendMail', n)
                    self.bad(I, zero, 'C14', 'left-open', 'the socket is not closed at the end of a non-batch sendMail', n)
                elif not any(self.c(st, i, 'quit') for i in own):
                    self.bad(I, zero, 'C17', 'no-quit', 'without batch mode the connection is closed without QUIT after a successful mail', n)
        non = st.copy()
        if non.assume_ne0(ret):
            if opened:
                self.bad(I, non, 'C15', 'left-open', 'after a failed sendMail the connection is still open', n)
                self.bad(I, non, 'C14', 'left-open', 'the socket is not closed by the end of a failed sendMail', n)
            if self.o['codes']:
                self.check_code(I, non, ret, own, n)
        return True

    def code_names(self):
        """name -> value of the declared error codes"""
        if not hasattr(self, '_codes'):
            self._codes = {q.replace('g:', '').split('::')[-1]: g['cv'] for q, g in self.P.globals.items() if isinstance(g.get('cv'), int) and g['cv'] < 0}
        return self._codes

    def codes_of(self, *pats):
        return {v for k, v in self.code_names().items() if any(p in k for p in pats)}

    def last_step(self, st, i):
        """what the connection was doing last, QUIT apart"""
        cmd = self.c(st, i, 'cmd')
        if cmd in ('none', 'starttls') and self.c(st, i, 'tls') == 'up':
            return ('tls:cert' if self.c(st, i, 'cert') is False else 'tls:verify'), None, None
        if cmd == 'none':
            return 'session', None, None
        return cmd, self.c(st, i, 'rx'), self.c(st, i, 'rcv')

    def check_code(self, I, st, ret, own, n):
        """the result of a failed sendMail belongs to the step that failed"""
        fail = self.gget(st, 'fail')
        step, rcv = None, None
        if fail:
            step = fail
            rule, what = 'operation', 'the failure of an operation (%s)' % fail
            allowed = self.step_codes(fail)
            if fail == 'connect-timeout':
                rule, what = 'timeout', 'the connection was not established in time'
        else:
            last = None
            for i in own:
                k = self.c(st, i, 'last')
                if k is None:
                    last = self.last_step(st, i)
                elif last is None:
                    last = (k, None, None) if k == 'session' or k.startswith('tls:') else (k, self.c(st, i, 'lrx'), self.c(st, i, 'lrcv'))
            if last is None:
                allowed, rule, what = self.codes_of('INIT_SESSION'), 'session', 'no connection was opened'
            else:
                step, rx, rcv = last
                allowed = self.step_codes('reply:' + step if rx is not None else step)
                rule, what = 'reply', 'the step that failed is %s' % step.upper()
                if rx is not None:
                    none = st.copy()
                    if none.assume_eq0(rx):
                        self.count('timeout codes')
                        t = self.codes_of(*self.TIMEOUT.get(step, ()))
                        if t:
                            self.off_code(I, none, ret, t, None, 'timeout', 'no reply to %s was received' % step.upper(), n, step)
                    if not st.assume_ge0(sub(rx, 1)):
                        return
        if allowed is None:
            self.und.setdefault('C13', {})[('step', str(fail or step))] = 'what failed is not understood'
            return
        self.count('failure codes')
        self.off_code(I, st, ret, allowed, rcv, rule, what, n, step)

    TIMEOUT = {'ehlo': ('SEND_EHLO_TIMEOUT', 'INITSECURECLIENT_TIMEOUT'), 'greet': ('CONNECT_TIMEOUT', 'INITSECURECLIENT_TIMEOUT'), 'starttls': ('STARTTLS_TIMEOUT',), 'mail': ('MAILFROM_TIMEOUT',),
               'rcpt': ('RCPTTO_TIMEOUT',), 'data': ('MAIL_DATA_TIMEOUT',), 'eod': ('END_DATA_TIMEOUT',), 'auth': ('AUTHENTICATE_TIMEOUT', 'AUTHENTICATE_ERROR'),
               'authuser': ('AUTHENTICATE_TIMEOUT', 'AUTHENTICATE_ERROR'), 'authpass': ('AUTHENTICATE_TIMEOUT', 'AUTHENTICATE_ERROR')}
    SENDERR = {'ehlo': ('SEND_EHLO_ERROR', 'INITSECURECLIENT_ERROR'), 'starttls': ('SEND_STARTTLS_ERROR',), 'auth': ('AUTHENTICATE_ERROR',), 'mail': ('MAILFROM_ERROR',), 'rcpt': ('RCPTTO_ERROR',),
               'data': ('MAIL_DATA_ERROR',), 'eod': ('END_DATA_ERROR',), 'quit': ('QUIT_ERROR',), 'headerfrom': ('HEADERFROM',), 'headertocc': ('HEADERTOANDCC',), 'headercc': ('HEADERTOANDCC',), 'headersubject': ('HEADERSUBJECT',),
               'headercontent': ('HEADERCONTENTTYPE', 'BODY'), 'body': ('HEADERCONTENTTYPE', 'BODY')}
    REPLY = {'ehlo': ('SEND_EHLO', 'INITSECURECLIENT', 'AUTHENTICATE_NONEED', 'METHOD_NOTSUPPORTED'), 'greet': ('INIT_SESSION', 'INITSECURECLIENT'), 'starttls': ('SEND_STARTTLS',), 'mail': ('MAILFROM',),
             'rcpt': ('RCPTTO',), 'data': ('MAIL_DATA',), 'eod': ('END_DATA', 'QUIT'), 'auth': ('AUTHENTICATE_', 'METHOD_NOTSUPPORTED'), 'authuser': ('AUTHENTICATE_',), 'authpass': ('AUTHENTICATE_',)}
    LOCAL = {'resolve': ('GETHOSTBYNAME', 'GETADDRINFO'), 'socket': ('SESSION_CREATION',), 'connect': ('SESSION_CONNECT_ERROR', 'DELAYED_CONNECTION'), 'connect-timeout': ('CONNECT_TIMEOUT',),
             'getsockopt': ('GET_SOCKET_OPTIONS', 'SESSION_CONNECT_ERROR'), 'setsockopt': ('FCNTL', 'SOCKET_OPTIONS'), 'fcntl': ('FCNTL',), 'session': ('INIT_SESSION',),
             'tls:ctx': ('INITSSLCTX',), 'tls:bio': ('BIONEWSSLCONNECT',), 'tls:paths': ('VERIFY_PATHS',), 'tls:name': ('BIO_CONNECT', 'BIO_HANDSHAKE'), 'tls:handshake': ('BIO_CONNECT', 'BIO_HANDSHAKE'),
             'tls:cert': ('GET_CERTIFICATE',), 'tls:verify': ('VERIFY_RESULT',)}

    def step_codes(self, step):
        if step.startswith('send:'):
            p = self.SENDERR.get(step[5:])
        elif step.startswith('reply:'):
            p = self.REPLY.get(step[6:])
        else:
            p = self.LOCAL.get(step)
        return self.codes_of(*p) if p else None

    def off_code(self, I, st, ret, allowed, rcv, rule, what, n, rule_step=None):
        t = st.copy()
        for c in sorted(allowed):
            if not t.assume_ne0(sub(ret, c)):
                return
        if is_num(rcv):
            if not t.assume_ne0(sub(ret, rcv)):
                return
            # what follows in the reply may be looked at as a reply of its own
            s = single(ret) if isinstance(ret, Lin) else None
            k = SYMS[s[0]].key if s else None
            if k and k[0] == 'stoi' and isinstance(k[1], tuple) and k[1][0] == 'rep':
                if k[1][1] == rule_step:
                    return
                if not t.assume_ge0(ret):
                    return
        iv = t.vals(ret)
        names = {v: k for k, v in self.code_names().items()}
        v = iv[0][0] if iv else None
        self.bad(I, t, 'C13', rule, 'sendMail may return %s although %s' % (names.get(v, v) if v is not None and iv[0][0] == iv[0][1] else 'a code of another step', what), n,
                 I.exact(t, ret) and (rcv is None or I.exact(t, rcv)))

    def after(self, st):
        """reset what only concerns the call that ended"""
        self.gset(st, fail=0, acc=False, new=False, had=False, inn=False, ehlo=False, log=frozenset(), waits=0)
        for i in self.conns(st):
            if self.c(st, i, 'st') == 'closed':
                self.put(st, i, cmd='none', rc=frozenset(), rcv=0, rx=0, quit=False, tls=0, last=None, lrx=0, lrcv=0)

    def gone(self, I, st, name, n):
        """the client object was destroyed"""
        for i in self.conns(st):
            if self.c(st, i, 'owner') == name and self.c(st, i, 'st') != 'closed':
                self.bad(I, st, 'C14', 'leaked-socket', 'a socket is still open after its client was destroyed', n)
