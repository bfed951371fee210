"""Session properties: sendMail and the life of a connected client, interpreted with the network, TLS and the server's
replies under control of the analysis (sa/ghost.py)."""
import ctypes
import multiprocessing as mp
import os
import pickle
import select
import signal
import traceback
import time
from sa.dom import *
from sa.state import *
from sa.values import Lives, CLIENT
from sa import values
from sa.ghost import Net, Mods, Enough
from .common import Result

PROG = None
TOTAL = int(os.environ.get('SA_TOTAL', '780' if os.environ.get('VERIF_TIER', 'quick') == 'quick' else '3600'))
JOB_LIMIT = int(os.environ.get('SA_JOB_LIMIT', '600'))
MSG = 'jed_utils::PlaintextMessage'


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


DEADLINE = None
GRACE = 45


def limit():
    """seconds the current process may work"""
    left = DEADLINE - time.time() if DEADLINE else JOB_LIMIT
    signal.alarm(int(max(1, min(JOB_LIMIT, left))))


def hurry():
    left = signal.alarm(0)
    signal.alarm(max(1, min(left or GRACE, GRACE)))


class Session:
    """one configuration of one client class"""

    def __init__(self, P, cls, creds=None, batch=False, selfok=False, msg='one', server='server', timeout=None, stop=None, **opts):
        self.P = P; self.cls = cls
        self.net = net = Net(P, **opts)
        net.stop_pid = stop
        content = net.o['content']
        net.hurry = hurry
        net.client = cls
        net.secure = P.derives(cls, 'jed_utils::SecureSMTPClientBase')
        net.forced = P.derives(cls, 'jed_utils::ForcedSecureSMTPClient') or cls == 'jed_utils::ForcedSecureSMTPClient'
        self.L = Lives(P, MSG, net)
        self.E = self.L.E; self.I = self.E.I
        self.I.models = Mods(net)
        self.I.track_match = self.I.charloops = content
        self.I.stop_rules = ALARMS.get(stop, ())
        self.creds, self.batch, self.selfok, self.msg, self.timeout = creds, batch, selfok, msg, timeout
        self.loggers = net.install_logger(self.I, cls)
        self.nend = 0
        self.parts = []
        self.I.budget = 1 << 60
        self.I.memo = set()
        self.I.memo_cls = {cls} | set(P.all_bases(cls))
        self.trace = os.environ.get('SA_TRACE')

    def meth(self, n, np):
        for q, x in self.E.methods(self.cls):
            if x['n'] == n and x['np'] == np:
                return x['key']
        raise KeyError('%s has no method %s/%d' % (self.cls, n, np))

    def each(self, states, f):
        out = []
        for s in states:
            out.extend(f(s))
        return self.I.merge(out) if len(out) > 1 else out

    def call(self, states, name, key, args):
        """call a method on the client `name`; exceptions end the path"""
        def one(s):
            return [x for x, v in self.E.call(s, self.loc(name), key, args) if x.exc is None]
        return self.each(states, one)

    def loc(self, name):
        return Ptr(('v', 0, name))

    # ---- building
    def message(self, st):
        """-> [(state, Ptr)]"""
        L = self.L
        for m in self.E.ctors(MSG):
            if m.get('copy') or m.get('move'):
                continue
            specs = L.arg_sets(m['key'], 'm')
            if not specs:
                continue
            spec = list(specs[0])
            ks = [x for x in spec if x[0] == 'objs']
            if (self.msg in ('plain', 'one')) == (len(ks) > 1):
                continue
            for j, x in enumerate(spec):
                md = x[3]
                if self.msg == 'plain' and x[0] in ('obj*', 'objs'):
                    md = 'null'
                elif self.msg == 'nulls' and x[0] == 'objs' and x is not ks[0]:
                    md = 'null'
                elif self.msg in ('bcc', 'cc') and x[0] == 'objs' and x is not ks[0] and x is not ks[2 if self.msg == 'bcc' else 1]:
                    md = 'null'
                elif self.msg == 'to' and x[0] == 'objs' and x is not ks[0]:
                    md = 'none'
                elif x[0] == 'cnt' and spec[j - 1][3] in ('null', 'none'):
                    md = 'zero'
                spec[j] = x[:3] + (md,)
            self.roles(spec)
            if True:
                out = []
                for s, vs, own in L.build(st, spec, 'm'):
                    for s2, p in self.E.construct(s, MSG, m['key'], 'm', vs):
                        if s2.exc is None:
                            cur = [s2]
                            for loc, c in own:
                                cur = [y for x in cur for y in L.drop(x, loc, c)]
                            out.extend((x, p) for x in cur)
                return L.mrg(out)
        return []

    def roles(self, spec):
        """what the parameters of the message are, by their order: From, To, Subject, Body, Cc, Bcc, attachments"""
        net, P = self.net, self.P
        adr = [x for x in spec if x[0] in ('obj*', 'objs', 'obj&') and (x[1].to.q if x[1].to is not None else '') == 'jed_utils::MessageAddress']
        txt = [x for x in spec if x[0] == 'cstr']
        att = [x for x in spec if x[0] in ('obj*', 'objs') and x[1].to.q == 'jed_utils::Attachment']
        if len(adr) != 4 or len(txt) != 2 or len(att) != 1:
            raise ValueError('the constructor of the message is not understood')
        net.roles = {'m.' + x[2]: r for x, r in zip(adr, ('from', 'to', 'cc', 'bcc'))}
        net.roles.update({'m.' + x[2]: r for x, r in zip(txt, ('subject', 'body'))})
        net.roles['m.' + att[0][2]] = 'attachments'
        for x, r in list(zip(adr, ('from', 'to', 'cc', 'bcc')))[1:] + [(att[0], 'attachments')]:
            if x[3] in ('null', 'none'):
                net.lists[r] = 0
            else:
                net.lists[r] = self.L.count_of('m.' + x[2]) if x[0] == 'objs' else 1
        for q, names in (('jed_utils::MessageAddress', ('email', 'display')), ('jed_utils::Attachment', ('filename', 'attname', 'attid'))):
            cs = [m for m in self.E.ctors(q) if not m.get('copy') and not m.get('move')]
            m = max(cs, key=lambda m: m['np'])
            f = P.funcs.get(m['key'])
            for p, k in zip(f['params'], names):
                setattr(net, k, p['n'])

    def client(self, states, name, first=True):
        """construct and configure a client object"""
        P, E = self.P, self.E
        key = [m for m in E.ctors(self.cls) if m['np'] == 2 and m['pt'][0].is_ptr()][0]['key']
        def build(s):
            self.net.gset(s, cur=name)
            return [x for x, p in E.construct(s, self.cls, key, name, [E.cstr(s, 'server'), sym(('inp', 'port'), 0, 65535)]) if p is not None]
        states = self.each(states, build)
        states = self.call(states, name, self.meth('setBatchMode', 1), [1 if self.batch else 0])
        to = sym(('inp', 'timeout'), 0, 1000) if self.timeout is None else self.timeout
        states = self.call(states, name, self.meth('setCommandTimeout', 1), [to])
        if self.net.secure:
            states = self.call(states, name, self.meth('setAcceptSelfSignedCert', 1), [1 if self.selfok else 0])
        if self.creds is not None:
            states = self.credentials(states, name)
        for s in states:
            self.net.gset(s, batch=self.batch, selfok=self.selfok, creds=self.creds if self.creds is not None else False)
        return states

    def credentials(self, states, name, user='user', pw='pw'):
        E = self.E
        cq = 'jed_utils::Credential'
        cm = [m for m in E.ctors(cq) if m['np'] == (2 if self.creds == 0 else 3)][0]
        def build(s):
            args = [E.cstr(s, user), E.cstr(s, pw)] + ([self.creds] if cm['np'] == 3 else [])
            return [x for x, p in E.construct(s, cq, cm['key'], 'cred', args) if p is not None]
        states = self.each(states, build)
        states = self.call(states, name, self.meth('setCredentials', 1), [Ptr(('v', 0, 'cred'))])
        return self.each(states, lambda s: E.destroy(s, Ptr(('v', 0, 'cred')), cq))

    # ---- running
    def send(self, states, name='c'):
        """sendMail on every state -> states after the call"""
        E, net = self.E, self.net
        k = self.meth('sendMail', 1)
        node = E.node(k)
        for s in states:
            net.begin(self.I, s, name)
        out = []
        for s in states:
            for t, v in E.call(s, self.loc(name), k, [Ptr(('v', 0, 'm'))]):
                self.nend += 1
                if net.end(self.I, t, v, node):
                    t.h.pop(('v', 0, '$ret'), None)
                    out.append(t)
        for s in out:
            net.after(s)
            net.purge(self.I, s)
            for k in [k for k, o in s.h.items() if k[0] == 'g' and isinstance(o.val, Top)]:
                del s.h[k]
        n0 = len(out)
        out = self.I.merge(out) if len(out) > 1 else out
        if self.trace:
            print('send', self.I.memo_hits, len(self.I.memo), len(states), '->', n0, '->', len(out), flush=True)
            ks = [s.key() for s in out]
            for a, b in zip(ks, ks[1:]):
                if a[:3] != b[:3] or a[4:] != b[4:]:
                    print('   * other', a[0], a[1], a[2], b[:3], a[4:], b[4:])
                da, db = dict((x[0], x[1:]) for x in a[3]), dict((x[0], x[1:]) for x in b[3])
                for k in sorted(set(da) | set(db), key=str):
                    x, y = da.get(k), db.get(k)
                    if x != y:
                        if x and y and isinstance(x[-1], tuple) and isinstance(y[-1], tuple) and len(x[-1]) == 2 and x[:-1] == y[:-1] and isinstance(x[-1][1], tuple):
                            x = [p for p in x[-1][1] if p not in y[-1][1]]; y = [p for p in y[-1][1] if p not in da[k][-1][1]]
                        print('   *', k, str(x)[:500], '|', str(y)[:500])
                print('   --', flush=True)
        return out

    def destroy(self, states, name='c'):
        net = self.net
        def one(s):
            net.gset(s, cur=name)
            return self.E.destroy(s, self.loc(name), self.cls)
        out = self.each(states, one)
        for s in out:
            net.gone(self.I, s, name, None)
        return out

    def copies(self, states):
        return [s.copy() for s in states]

    def start(self):
        st = self.E.start()
        self.net.init(st, self.cls)
        ms = self.message(st)
        return [s for s, p in ms]

    def open_states(self, states, name='c'):
        return [s for s in states if any(self.net.c(s, i, 'st') != 'closed' and self.net.c(s, i, 'owner') == name for i in self.net.conns(s))]

    def run(self, parts):
        st = self.start()
        st = self.client(st, 'c')
        self.built = len(st)
        st = self.send(st)
        self.nstates = len(st)
        keys = set()
        for s in st:
            s.canon(None)
            keys.add(s.key())
        tasks = []
        if 'again' in parts or 'reuse' in parts:
            for s in st:
                if 'again' in parts or self.open_states([s]):
                    tasks.append(lambda s=s: self.again(s, keys, parts))
        if 'life' in parts:
            tasks += self.life(st)
        if 'end' in parts:
            tasks.append(lambda: [self.E.finish(s) for s in self.destroy(self.copies(st))])
        self.fork(tasks)

    def again(self, s, keys, parts):
        """a later sendMail; its end states must be among those later calls are analysed from"""
        out = self.send([s])
        for x in out:
            x.canon(None)
            if x.key() not in keys:
                self.net.und.setdefault('*', {})[('history', str(len(keys)))] = 'a history of calls that is not covered'
                if self.trace:
                    print('NEW STATE')
        if 'end' in parts:
            for x in self.destroy(out):
                self.E.finish(x)

    def collect(self):
        """everything found so far, in a form that can be sent to another process"""
        try:
            self.net.settle()
        except Enough:
            pass
        net, I = self.net, self.I
        al = [(x.rule, x.msg, x.fn, x.file, x.line, [str(s) for s in (x.stack or ())] + [str(s) for s in (x.trace or ())], x.extra) for x in I.alarms.values()]
        fi = [(f.pid, f.rule, f.msg, f.fn, f.file, f.line, f.trace) for f in net.found.values()]
        und = [(str((pid,) + k), str(v)) for pid, d in net.und.items() for k, v in d.items()]
        return dict(enough=net.nfound >= 3, some=net.nfound > 0, alarms=al, findings=fi, und=und, undec=[str(k) for k in I.undecided], calls=I.calls, counts=dict(net.counts), nend=self.nend,
                    obl=sum(I.obligations.values()) if isinstance(I.obligations, dict) else 0)

    def fork(self, tasks):
        """run the tasks in processes of their own and collect what they find"""
        kids = []
        for t in tasks:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    die_with_parent()
                    c0, n0, e0 = self.I.calls, dict(self.net.counts), self.nend
                    o0 = self.collect()['obl']
                    extra = []
                    try:
                        limit()
                        t()
                    except Enough:
                        pass
                    except values.Budget:
                        extra.append(("('budget',)", 'analysis budget exceeded'))
                    except Timeout:
                        extra.append(("('time',)", 'analysis time exceeded'))
                    d = self.collect()
                    d['und'] += extra
                    d['calls'] -= c0; d['nend'] -= e0; d['obl'] -= o0
                    d['counts'] = {k: v - n0.get(k, 0) for k, v in d['counts'].items()}
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(d, f)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        pend = {r: (pid, []) for pid, r in kids}
        until = None
        while pend:
            ready = select.select(list(pend), [], [], None if until is None else max(0, until - time.time()))[0]
            if not ready:
                self.stop(pend)
                raise Enough()
            for r in ready:
                data = os.read(r, 1 << 20)
                pend[r][1].append(data)
                if data:
                    continue
                pid, buf = pend.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                buf = b''.join(buf)
                self.parts.append(pickle.loads(buf) if buf else dict(failed=True))
                if self.parts[-1].get('enough'):
                    self.stop(pend)
                    raise Enough()
                if self.parts[-1].get('some') and until is None:
                    until = time.time() + GRACE

    def stop(self, pend):
        for r, (pid, b) in pend.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)

    def life(self, st):
        """copy, move, assignment and destruction of a client that was used: a list of tasks"""
        tasks = []
        for which in ('copyctor', 'movector'):
            m = self.E.special(self.cls, which)
            if m is not None:
                tasks.append(lambda m=m, w=which: self.life_ctor(self.copies(st), w, m))
        for which in ('copyassign', 'moveassign'):
            m = self.E.special(self.cls, which)
            if m is not None:
                # to an unused client, and to one that has a connection of its own
                tasks.append(lambda m=m, w=which: self.life_assign(self.copies(st), w, m, False))
                o = self.open_states(st)
                if o:
                    tasks.append(lambda m=m, w=which, o=o: self.life_assign(self.copies(o), w, m, True))
        return tasks

    def life_ctor(self, st, which, m):
        E, net = self.E, self.net
        def mk(s):
            net.gset(s, cur='c')
            return [x for x, p in E.construct(s, self.cls, m['key'], 'd', [self.loc('c')]) if p is not None]
        a = self.each(st, mk)
        if which == 'movector':
            for s in a:
                for i in net.conns(s):
                    if net.c(s, i, 'owner') == 'c':
                        net.put(s, i, owner='d')
        self.both(a)

    def life_assign(self, a, which, m, used):
        E, net, I = self.E, self.net, self.I
        a = self.client(a, 'd')
        if used:
            a = self.open_states(self.send(a, 'd'), 'd')
        def asg(s):
            net.gset(s, cur='d')
            old = [i for i in net.conns(s) if net.c(s, i, 'owner') == 'd' and net.c(s, i, 'st') != 'closed']
            if which == 'moveassign':
                # the target takes the connection of the source over
                for i in [i for i in net.conns(s) if net.c(s, i, 'owner') == 'c']:
                    net.put(s, i, owner='d')
            r = [x for x, v in E.call(s, self.loc('d'), m['key'], [self.loc('c')]) if x.exc is None]
            for x in r:
                for i in old:
                    if ('N', i) in x.h and net.c(x, i, 'st') != 'closed':
                        net.bad(I, x, 'C14', 'assign-open', 'the connection of the target of an assignment is not closed', E.node(m['key']))
            return r
        self.both(self.each(a, asg))

    def both(self, a):
        """destroy d, then c, and the other way round"""
        b = self.copies(a)
        for s in self.destroy(self.destroy(a, 'd'), 'c'):
            self.E.finish(s)
        for s in self.destroy(self.destroy(b, 'c'), 'd'):
            self.E.finish(s)


def die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def job(cfg):
    i, cfg = cfg
    cfg = dict(cfg)
    parts = cfg.pop('parts', ('end',))
    limit()
    t0 = time.time()
    extra = []
    S = Session(PROG, **cfg)
    S.built = S.nstates = 0
    try:
        S.run(parts)
    except Enough:
        pass
    except values.Budget:
        extra.append(("('budget',)", 'analysis budget exceeded'))
    except Timeout:
        extra.append(("('time',)", 'analysis time exceeded'))
    finally:
        signal.alarm(0)
    r = S.collect()
    r['und'] += extra
    r['i'] = i
    for d in S.parts:
        r['enough'] = r['enough'] or d.get('enough')
        r['some'] = r['some'] or d.get('some')
        if d.get('failed'):
            r['und'].append(("('process',)", 'a part of the analysis ended abnormally'))
            continue
        for k in ('alarms', 'findings', 'und', 'undec'):
            r[k] = r[k] + [x for x in d[k] if x not in r[k]]
        for k in ('calls', 'nend', 'obl'):
            r[k] += d[k]
        for k, v in d['counts'].items():
            r['counts'][k] = r['counts'].get(k, 0) + v
    r.update(cfg=cfg, parts=parts, built=S.built, loggers=S.loggers, secs=time.time() - t0, nstates=S.nstates)
    return r


def run_jobs(P, jobs, n=None):
    global PROG, DEADLINE
    PROG = P
    DEADLINE = time.time() + TOTAL
    signal.signal(signal.SIGALRM, _alarm)
    ctx = mp.get_context('fork')
    with ctx.Pool(n or min(8, os.cpu_count() or 4), initializer=die_with_parent) as pool:
        out = []
        it = pool.imap_unordered(job, list(enumerate(jobs)), chunksize=1)
        until = None
        while len(out) < len(jobs):
            try:
                r = it.next(None if until is None else max(0.1, until - time.time()))
            except mp.TimeoutError:
                break
            out.append(r)
            if r['enough']:
                break
            if r['some'] and until is None:
                until = time.time() + GRACE
        return sorted(out, key=lambda r: r['i'])


# ---------------------------------------------------------------------- properties
S_, O_, F_ = 'jed_utils::SmtpClient', 'jed_utils::OpportunisticSecureSMTPClient', 'jed_utils::ForcedSecureSMTPClient'
CRASH = ('null', 'uninit', 'dangling', 'uaf', 'oob-read', 'oob-write', 'unterminated', 'div0', 'recursion', 'pure-call', 'no-return', 'double-free', 'bad-free', 'uninit-free', 'lit-write')
OWN = ('leak', 'double-free', 'mismatch', 'bad-free', 'uaf', 'uninit-free', 'dangling')
ALARMS = {'C25': ('oob-read', 'oob-write', 'unterminated', 'lit-write'), 'C27': CRASH, 'C16': ('recursion',), 'C19': OWN, 'C14': ('double-free', 'leak'), 'C22': ('uaf', 'double-free')}


def J(cls, *parts, **k):
    k.setdefault('msg', 'plain')
    return dict(cls=cls, parts=parts or ('end',), **k)


def each(classes, *parts, **k):
    return [J(c, *parts, **k) for c in classes]


def plan(pid, tier):
    """the configurations a property is decided on"""
    A, X = (O_, S_, F_), (O_, F_)
    deep = tier == 'thorough'
    j = []
    if pid == 'C01':
        j = [J(F_, creds=0), J(O_, 'again', 'end', creds=0)]
        if deep:
            j += each(X, 'again', 'end', creds=0, batch=True) + each(X, creds=0, selfok=True) + [J(c, creds=k) for c in X for k in (1, 2, 3)] + each(X, creds=0, msg='one')
    elif pid in ('C02', 'C38'):
        j = each(X) + each(X, selfok=True)
        if deep:
            j += each(X, 'again', 'end', batch=True, selfok=True) + each(X, 'again', 'end', batch=True) + each(X, creds=0, selfok=True)
    elif pid == 'C03':
        j = [J(O_, 'again', 'end'), J(F_, 'again', 'end', batch=True)]
        if deep:
            j += [J(O_, 'again', 'end', batch=True)] + each(X, creds=0, msg='one')
    elif pid == 'C04':
        j = [J(O_, conv=True)]
        if deep:
            j += [J(O_, conv=True, creds=0), J(O_, 'again', 'end', conv=True, batch=True), J(O_, conv=True, selfok=True)]
    elif pid == 'C05':
        j = each(A, creds=0)
        if deep:
            j += [J(c, creds=k) for c in A for k in (1, 2, 3, 4, 5, 6)] + each((S_, F_), 'again', 'end', creds=0, batch=True)
    elif pid == 'C10':
        j = each(A, creds=0, conv=True)
        if deep:
            j += [J(c, creds=k, conv=True) for c in A for k in (1, 2, 3)] + each(A, 'again', 'end', creds=0, conv=True, batch=True)
    elif pid == 'C11':
        j = each(A, creds=0, conv=True) + [J(S_, creds=k, conv=True) for k in (1, 2, 3, 4, 5, 6)]
        if deep:
            j += [J(c, creds=k, conv=True) for c in X for k in (1, 2, 3, 4, 5, 6)] + each((S_, F_), 'again', 'end', creds=0, conv=True, batch=True)
    elif pid in ('C14', 'C22', 'C19'):
        j = each((S_, F_), 'life', 'end', batch=True) + [J(O_), J(S_, msg='lists'), J(F_, msg='lists')]
        if deep:
            j += [J(O_, 'life', 'end', batch=True), J(O_, 'life', 'end')] + each((S_, F_), 'life', 'end') + each(A, 'again', 'end', batch=True) + each(A, creds=0)
    elif pid == 'C08':
        j = [J(S_, rcpt=True, msg='one')] + [J(S_, rcpt=True, msg=m) for m in ('lists', 'nulls', 'to', 'bcc', 'cc')] + [J(c, rcpt=True, msg='one') for c in (F_, O_)]
        if deep:
            j += [J(c, rcpt=True, msg=m) for c in (F_, O_) for m in ('lists', 'nulls', 'to', 'bcc', 'cc')] + each((S_, F_), 'again', 'end', msg='lists', batch=True)
    elif pid == 'C33':
        j = each(A, logs=True)
        if deep:
            j += each(A, logs=True, creds=0) + each((S_, F_), 'again', 'end', logs=True, batch=True)
    elif pid == 'C09':
        j = [J(S_, content=True, msg=m) for m in ('lists', 'one', 'bcc')] + [J(c, content=True, msg='one') for c in (F_, O_)]
        if deep:
            j += [J(c, content=True, msg=m) for c in (F_, O_) for m in ('lists', 'bcc', 'nulls')] + each((S_, F_), 'again', 'end', content=True, msg='one', batch=True)
    elif pid == 'C34':
        j = [J(S_, content=True, msg=m) for m in ('lists', 'one', 'plain', 'nulls', 'cc')] + [J(c, content=True, msg='one') for c in (F_, O_)]
        if deep:
            j += [J(c, content=True, msg=m) for c in (F_, O_) for m in ('lists', 'nulls', 'to', 'bcc', 'cc')] + each((S_, F_), 'again', 'end', content=True, msg='one', batch=True)
    elif pid == 'C35':
        j = [J(c, content=True, msg=m) for c in (S_, F_, O_) for m in ('plain', 'one')]
        if deep:
            j += [J(c, content=True, msg=m) for c in (S_, F_, O_) for m in ('lists', 'nulls')] + each((S_, F_), 'again', 'end', content=True, batch=True)
    elif pid == 'C36':
        j = [J(S_, content=True, msg=m) for m in ('lists', 'one', 'plain')] + [J(c, content=True, msg='one') for c in (F_, O_)]
        if deep:
            j += [J(c, content=True, msg=m) for c in (F_, O_) for m in ('lists', 'plain', 'nulls')] + [J(S_, content=True, creds=k) for k in (0, 1, 2, 3)]
    elif pid == 'C12':
        j = each(A) + [J(S_, msg='one')]
        if deep:
            j += each(A, msg='one', creds=0) + each(A, 'again', 'end', batch=True)
    elif pid == 'C13':
        j = [J(O_, codes=True), J(S_, codes=True, msg='one'), J(S_, codes=True, creds=0), J(F_, codes=True, creds=0)]
        if deep:
            j += each(X, codes=True, msg='one', creds=0) + each(A, 'again', 'end', codes=True, batch=True) + [J(c, codes=True, creds=k) for c in A for k in (1, 2, 3)]
    elif pid == 'C32':
        steps = ['connect', 'greet', 'ehlo', 'mail', 'rcpt', 'data', 'eod']
        for cls, auth, tls in ((S_, True, False), (F_, True, False), (O_, False, True)):
            todo = [(x, 0) for x in steps] + [('ehlo', 1)] + [('starttls', 0)] * tls
            for x, k in todo:
                for how in (-1, 0):
                    j.append(J(cls, silent=(x, k, how), timeout=1))
            if auth:
                j += [J(cls, silent=(x, 0, how), timeout=1, creds=k) for x, k in (('auth', 0), ('auth', 2), ('authuser', 2), ('authpass', 2)) for how in (-1, 0)]
        if deep:
            j += [J(cls, 'again', 'end', silent=(x, k, how), timeout=1, batch=True) for cls in A for x, k in [(x, 0) for x in steps] + [('ehlo', 1), ('mail', 1), ('eod', 1), ('greet', 1)] for how in (-1, 0)]
    elif pid == 'C42':
        j = each(X) + [J(S_)]
        if deep:
            j += each(X, 'again', 'end', batch=True) + each(X, creds=0) + [J(S_, creds=0), J(F_, 'again', 'end'), J(O_, 'again', 'end')]
    elif pid in ('C25', 'C27'):
        j = [J(S_, creds=0, conv=True), J(F_, creds=0, conv=True), J(O_)]
        if deep:
            j += each(A, msg='one', creds=0) + each(A, 'again', 'end', batch=True)
    elif pid in ('C06', 'C07', 'C15', 'C16', 'C17'):
        j = [J(O_), J(S_, 'again', 'end', batch=True), J(F_, 'again', 'end', batch=True)]
        if pid in ('C07', 'C16'):
            j += [J(S_, creds=0)]
        else:
            j += each((S_, F_))
        # conditions on the parts of a message (attachments, lists, ...)
        j += [J(S_, 'again', 'end', batch=True, msg='one')] if pid == 'C17' else [J(S_, msg='one'), J(F_, batch=True, msg='one')]
        if deep:
            j += each(A, creds=0) + [J(O_, 'again', 'end', batch=True)] + each(A, 'again', 'end') + each(A, msg='one')
    return j


def anchor(pid, c):
    g = lambda k: c.get(k, 0)
    d = {'calls of sendMail that ended': g('ended calls'), 'sockets opened': g('sockets'), 'writes': g('writes')}
    if pid in ('C01', 'C02', 'C03', 'C38'):
        d['TLS handshakes'] = g('handshakes')
    if pid in ('C01', 'C05', 'C10', 'C11'):
        d['AUTH commands'] = g('AUTH commands')
    if pid == 'C05':
        d['log items'] = g('log items')
    if pid == 'C07':
        d['commands'] = g('commands')
    if pid == 'C10':
        d['MAIL commands'] = g('MAIL commands'); d['credential lines'] = g('credential lines')
    if pid in ('C14', 'C16', 'C22'):
        d['closes'] = g('closes')
    if pid == 'C08':
        d['RCPT commands'] = g('RCPT commands'); d['recipient list obligations'] = g('recipient list obligations')
    if pid == 'C13':
        d['failure codes'] = g('failure codes'); d['timeout codes'] = g('timeout codes')
    if pid == 'C33':
        d['log obligations'] = g('log obligations')
    if pid in ('C09', 'C34', 'C35', 'C36'):
        d['messages transmitted'] = g('messages transmitted')
    if pid == 'C09':
        d['messages with Bcc recipients'] = g('messages with Bcc recipients')
    if pid == 'C34':
        for k in ('header', 'body', 'attachment', 'slice'):
            d[k + ' obligations'] = g(k + ' obligations')
    if pid == 'C35':
        d['body texts'] = g('body texts')
    if pid == 'C36':
        d['line break obligations'] = g('line break obligations')
    if pid == 'C04':
        d['EHLO replies without STARTTLS'] = g('EHLO replies without STARTTLS')
    if pid in ('C32', 'C42'):
        d['reads'] = g('reads')
    if pid == 'C32':
        d['rounds without data'] = g('rounds')
    return d


TEXT = {
    'C01': 'every write to a plain socket is checked for bytes derived from the user name or password; every write of such bytes to a TLS session is checked for a completed handshake, a peer certificate and an accepted verification result',
    'C02': 'every write to a TLS session is checked for a completed handshake, a peer certificate and an accepted verification result',
    'C03': 'every write to a plain socket is checked for a TLS negotiation that was started before on the connection; the forced-TLS client may not write to a plain socket at all after the negotiation, nor before it',
    'C04': 'the tests the program makes on the EHLO reply are recorded; the next command has to be STARTTLS unless the complete reply was searched without finding the keyword',
    'C05': 'every item appended to the communication log and every console write is checked for bytes derived from the password',
    'C06': 'at every return of sendMail with a possible 0: the end of the message was answered with 250 after an unbroken chain of accepted MAIL, RCPT and DATA commands',
    'C07': 'every command is classified from the text sent and compared with the order the reply to the last command allows',
    'C08': 'every RCPT TO is matched with the recipient it names; at DATA the numbers named are compared with the lengths of the To, Cc and Bcc lists; MAIL FROM has to carry the From address',
    'C09': 'the text sent between DATA and end-of-data is followed through every string operation: none of it derives from an address or display name of the Bcc list',
    'C34': 'the text sent between DATA and end-of-data is kept symbolically: every header field is there once with the complete value of the message, the body and the attachments follow once and in order, and a text sent in slices is continued exactly where the last slice ended, for every length',
    'C35': 'the loop that prepares the body is summarised as a finite-state transducer (its effect for every character in every state of its variables) and compared with the dot-stuffing rule of RFC 5321 on all inputs by a product construction',
    'C36': 'every text of the user is followed through every string operation into commands and message: one that may contain CR or LF must have passed a conversion or a validation that excludes them (the body excepted)',
    'C10': 'MAIL is only sent after a 235 reply to AUTH on the same connection when credentials are configured; the text sent for AUTH consists of the configured credentials',
    'C11': 'at every AUTH command: its mechanism was recognised in the last EHLO reply and the credentials allow it',
    'C12': 'every failure of a network or TLS operation is remembered; sendMail may not return 0 afterwards; unfinished sends may not be taken for complete',
    'C13': 'the first operation that failed, or the step whose reply was missing or refused, is remembered; at every return of sendMail with a non-zero value the value has to be a code declared for that step (the timeout code when no reply was received) or the code of the reply',
    'C14': 'typestate of every descriptor, SSL, SSL_CTX and BIO: released exactly once, not used afterwards, not lost; also through copy, move, assignment and destruction of a used client',
    'C15': 'at every return of sendMail with a possible non-zero value the connection is closed',
    'C16': 'QUIT at most once per connection, nothing is sent after it, teardown does not re-enter itself without bound',
    'C17': 'at every return 0 of sendMail: batch mode leaves exactly one open connection and did not send QUIT, otherwise QUIT was sent and the connection closed; a second mail uses the open session without a new connection or EHLO',
    'C19': 'heap blocks of a client with a connection history are released exactly once',
    'C22': 'after copy, move or assignment of a client with a live connection no two clients release or use the same descriptor or TLS session',
    'C25': 'every access to an array or fixed buffer is in bounds for every length of the server\'s replies and of the user\'s texts',
    'C27': 'no null or stale pointer is followed, no uninitialised value used, no exception escapes for any reply of the server',
    'C32': 'the server falls silent (or closes the connection) before or in every reply: the number of further attempts to read is followed exactly; every blocking receive, send, select and handshake needs a time limit that follows the configured one',
    'C33': 'every command is in the communication log before it is sent and every reply before the next step',
    'C42': 'every read of a reply: from the plain socket only while no TLS negotiation was started, from a TLS session only when its handshake was completed, and never from a session that does not exist',
    'C38': 'every TLS session that is used was bound to the configured server name before its handshake',
}
ASSUME = ['text lengths and element counts are below 2^30', 'texts of the caller and of the server contain no NUL characters', 'memory allocation does not fail',
          'descriptors returned by socket() are at least 3', 'OpenSSL and libc behave as modelled in sa/ghost.py and sa/models.py']


def run(pid, P, tier):
    res = Result()
    jobs = plan(pid, tier)
    if not jobs:
        raise ValueError('%s is not decided by this module' % pid)
    missing = [j['cls'] for j in jobs if j['cls'] not in P.records]
    if missing:
        raise ValueError('client classes not found: %s' % ', '.join(sorted(set(missing))))
    # the longest first
    jobs.sort(key=lambda j: -('life' in j['parts']) * 4 - ('again' in j['parts']) * 2 - (j['cls'] == O_) * 3 - (j.get('msg') != 'plain'))
    apply(res, pid, run_jobs(P, [dict(j, stop=pid) for j in jobs]), jobs)
    return res


def apply(res, pid, out, jobs):
    counts = {}
    undec, und = set(), set()
    for r in out:
        for f in r['findings']:
            if f[0] == pid:
                res.bad(*f[1:])
        for a in r['alarms']:
            if a[0] in ALARMS.get(pid, ()) and not (pid == 'C25' and a[6] == 'heap'):
                res.bad(*a[:6])
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        undec.update(str(x) for x in r['undec'])
        und.update('%s: %s' % (x[0], x[1]) for x in r['und'] if x[0].startswith("('" + pid) or x[0].startswith("('*") or not x[0].startswith("('C"))
    res.anchors.update(anchor(pid, counts))
    res.undecided += len(undec) + len(und)
    res.coverage.update({'explanation': TEXT.get(pid, ''), 'configurations': ['%s %s' % ({k: v for k, v in r['cfg'].items() if k != 'stop'}, '+'.join(r['parts'])) for r in out],
                         'calls_interpreted': sum(r['calls'] for r in out), 'memory_obligations': sum(r['obl'] for r in out),
                         'end_states_of_sendMail': sum(r['nend'] for r in out), 'distinct_states_between_calls': sum(r['nstates'] for r in out),
                         'protocol_events': counts, 'undecided_sites': sorted(undec)[:20], 'undecided_rules': sorted(und)[:20], 'job_seconds': [round(r['secs'], 1) for r in out]})
    res.assumptions += [a for a in ASSUME if a not in res.assumptions]
