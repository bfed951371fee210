"""C28 error messages, C29 getErrorMessage_r, C31 shared state."""
import re
from sa.dom import *
from sa.state import *
from sa.harness import Env
from sa.interp import Infeasible
from .common import Result

EXAMPLE = 'example/'
BASE = 'jed_utils::SMTPClientBase'


def run(pid, P, tier):
    return {'C28': c28, 'C29': c29, 'C31': c31}[pid](P)


def lit_of(I, st, v):
    """bytes of a C string / std::string value, or None when it is not a known literal"""
    if isinstance(v, Ptr):
        if v.obj[0] == 'L':
            b = v.obj[1]
            t = b if isinstance(b, Str) else None
            if t is None:
                b = bytes(b)
                b = b.split(b'\0')[0]
                return b[v.idx:] if isinstance(v.idx, int) else None
        o = st.h.get(v.obj)
        if v.obj[0] == 'L':
            x = v.obj[1]
            v = I.cut(st, x, v.idx)[1]
        elif o is not None:
            x = I.getpath(st, o.val, v.path, None)
            if type(x) is CBuf:
                if not x.term:
                    return None
                x = x.txt
                v = I.cut(st, x, v.idx)[1] if v.idx != 0 else x
            else:
                v = x
    if isinstance(v, Str):
        v = I.norm(st, v)
        if all(isinstance(p, bytes) for p in v.p):
            return b''.join(v.p)
    return None


def error_constants(P):
    return sorted((g['q'], g['cv'], g['file'], g.get('line')) for g in P.globals.values()
                  if g['file'].endswith('errors.h') and g.get('const') and 'cv' in g and g['t'].k == 'int')


def alarms(res, I, rules=None):
    for a in I.alarms.values():
        if rules is None or a.rule in rules:
            res.bad(a.rule, a.msg, a.fn, a.file, a.line, a.stack or ())


MEM = {'null', 'uninit', 'dangling', 'uaf', 'oob-read', 'oob-write', 'unterminated', 'lit-write', 'mismatch', 'double-free', 'bad-free', 'uninit-free'}


def c28(P):
    res = Result()
    consts = error_constants(P)
    res.anchors['declared error codes'] = len(consts)
    by = {}
    for q, v, f, l in consts:
        by.setdefault(v, []).append((q, f, l))
    for v, xs in by.items():
        if len(xs) > 1:
            res.bad('duplicate-code', '%s have the same value %d' % (' and '.join(x[0] for x in xs), v), xs[-1][0], xs[-1][1], xs[-1][2])
    # every public way of turning a code into a text
    routes = []
    ER = 'jed_utils::ErrorResolver'
    if ER in P.records:
        routes.append(ER)
    for cls in sorted(P.records):
        for m in P.records[cls]['methods']:
            if m.get('static') and m['n'] == 'getErrorMessage' and m['np'] == 1 and m['key'] in P.funcs:
                routes.append((cls, m['key']))
    res.anchors['translation functions'] = len(routes)
    paths = 0
    table = {}
    # the whole int range: every declared code on its own, and the gaps between them
    cuts = sorted(by)
    gaps = []
    lo = -2**31
    for c in cuts:
        if lo <= c - 1:
            gaps.append((lo, c - 1))
        lo = c + 1
    gaps.append((lo, 2**31 - 1))
    for r in routes:
        if r == ER:
            ctor = [m for m in Env(P).ctors(ER) if m['np'] == 1 and m['pt'][0].k == 'int'][0]
            where = P.funcs[ctor['key']]
            name = ER
        else:
            where = P.funcs[r[1]]
            name = where['q']
        def texts(code):
            nonlocal paths
            E = Env(P); I = E.I
            out = set()
            if r == ER:
                get = [m for c, m in E.methods(ER) if m['n'] == 'getErrorMessage'][0]
                cod = [m for c, m in E.methods(ER) if m['n'] == 'getErrorCode'][0]
                ends = []
                for s, p in E.construct(E.start(), ER, ctor['key'], 'r', [code]):
                    if s.exc is not None:
                        ends.append((s, None)); continue
                    for s2, w in E.call(s, p, cod['key'], []):
                        if not s2.eq(w, code):
                            if s2.approx or not I.exact(s2, w, code):
                                res.undecided += 1
                            else:
                                res.bad('error-code', 'getErrorCode() does not return the code given', ER + '::getErrorCode', P.funcs[cod['key']]['file'], P.funcs[cod['key']]['line'])
                        ends += E.call(s2, p, get['key'], [])
            else:
                ends = E.call(E.start(), None, r[1], [code])
            for s, v in ends:
                paths += 1
                if s.exc is not None:
                    res.bad('throws', 'translating an error code throws', name, where['file'], where['line']); continue
                if where['ret'].k == 'rec' and isinstance(v, Ptr) and r != ER:
                    v = I.peek(s, v)
                t = lit_of(I, s, v)
                if t is None:
                    if I.undecided or s.approx:
                        res.undecided += 1
                    else:
                        res.bad('unreadable', 'the text returned is not a readable terminated string', name, where['file'], where['line'])
                    continue
                out.add(t)
            if I.undecided:
                res.undecided += 1
            return out
        other = {}
        for a, b in gaps:
            code = a if a == b else sym(('inp', 'code', a), a, b)
            for t in texts(code):
                other.setdefault(t, []).append((a, b))
        fallback = max(sorted(other), key=lambda t: len(other[t])) if other else None
        for t in other:
            if t != fallback:
                res.bad('fallback', 'an undeclared code in %s is given the text %r instead of the fallback text' % (other[t], t.decode('latin1')), name, where['file'], where['line'])
        used = {}
        for c in cuts:
            nm = by[c][0][0]
            ts = texts(c)
            table.setdefault(name, {})[nm] = sorted(x.decode('latin1') for x in ts)
            if len(ts) > 1:
                res.undecided += 1; continue
            ref = table.get(ER, {}).get(nm)
            for t in ts:
                if name != ER and ref is not None and len(ref) == 1 and ref[0] != t.decode('latin1'):
                    res.bad('differs', '%s (%d) is translated to %r here and to %r by ErrorResolver' % (nm, c, t.decode('latin1'), ref[0]), name, where['file'], where['line'])
                if t == b'':
                    res.bad('empty', '%s (%d) has an empty message' % (nm, c), name, where['file'], where['line'])
                elif t == fallback:
                    res.bad('untranslated', '%s (%d) has no message of its own' % (nm, c), name, where['file'], where['line'])
                elif t in used:
                    res.bad('same-message', '%s (%d) and %s have the same message %r' % (nm, c, used[t], t.decode('latin1')), name, where['file'], where['line'])
                used[t] = nm
            if not ts:
                res.undecided += 1
        if fallback == b'':
            res.bad('empty', 'the fallback text is empty', name, where['file'], where['line'])
    res.coverage = {'explanation': 'the code-to-text functions are partially evaluated over the whole int range by the abstract interpreter; the resulting decision table is compared with the declared constants',
                    'declared_codes': len(consts), 'routes': [str(r) for r in routes], 'routes_count': len(routes), 'decision_paths': paths,
                    'obligations': len(consts) * len(routes), 'samples': dict(list(table.get(ER, {}).items())[:3])}
    return res


def c29(P):
    res = Result()
    n_paths = 0
    keys = []
    for cls in sorted(P.records):
        for m in P.records[cls]['methods']:
            if m.get('static') and m['n'] == 'getErrorMessage_r' and m['key'] in P.funcs:
                keys.append((cls, m))
    res.anchors['getErrorMessage_r functions'] = len(keys)
    shapes = 0
    obligations = 0
    codes = sorted({c for _, c, _, _ in error_constants(P)}) + [-32768]
    for cls, m in keys:
        f = P.funcs[m['key']]
        if m['np'] == 3:
            for mode, code in [(md, c) for md in ('null', 'zero', 'one', 'sized') for c in codes]:
                E = Env(P); I = E.I
                I.nomerge = {m['key']}
                st = E.start()
                cap = {'zero': 0, 'one': 1}.get(mode)
                if cap is None:
                    cap = sym(('inp', 'size'), 1, MAXLEN)
                oid = ('e', 'buffer')
                if mode != 'null':
                    st.h[oid] = Obj('ext', CBuf(cap, None, False))
                    arg = Ptr(oid, (), True, 0)
                else:
                    arg = NULL
                for s, v in E.call(st, None, m['key'], [code, arg, cap]):
                    n_paths += 1
                    obligations += 1
                    if s.exc is not None:
                        res.bad('throws', 'getErrorMessage_r throws', f['q'], f['file'], f['line']); continue
                    if mode in ('null', 'zero'):
                        if not s.eq(v, -1) and not s.approx:
                            res.bad('result', 'returns %r instead of -1 for a %s' % (v, 'null buffer' if mode == 'null' else 'zero size'), f['q'], f['file'], f['line'])
                        if mode == 'zero' and s.h[oid].val.txt is not None and not s.approx:
                            res.bad('writes', 'writes into a buffer of size zero', f['q'], f['file'], f['line'])
                        E.finish(s)
                        continue
                    b = s.h[oid].val
                    full_txt = message_of(P, E, s.copy(), code)
                    if b.txt is None or not b.term:
                        if s.approx:
                            res.undecided += 1
                        else:
                            res.bad('unterminated', 'leaves the buffer without a terminated text', f['q'], f['file'], f['line'])
                        continue
                    got = I.norm(s, b.txt)
                    shapes += 1
                    verdicts = []
                    for want in full_txt:
                        verdicts.append(judge_r(I, s, v, got, want, cap))
                    if any(x is True for x in verdicts):
                        pass
                    elif not verdicts or any(x is None for x in verdicts) or s.approx:
                        res.undecided += 1
                    else:
                        res.bad('result', '%s; returned %r with text %r' % (verdicts[0], v, got), f['q'], f['file'], f['line'])
                    E.finish(s)
                alarms(res, I, MEM)
        for code in codes if m['np'] != 3 else ():
            E = Env(P); I = E.I
            st = E.start()
            out = E.sstr(st, 'out')
            for s, v in E.call(st, None, m['key'], [code, out]):
                n_paths += 1
                obligations += 1
                if s.exc is not None:
                    res.bad('throws', 'getErrorMessage_r throws', f['q'], f['file'], f['line']); continue
                got = I.norm(s, I.peek(s, out))
                full_txt = message_of(P, E, s.copy(), code)
                ok = [same_text(I, s, got, w) for w in full_txt]
                if not s.eq(v, 0) and not s.approx:
                    res.bad('result', 'returns %r instead of 0 although every message fits' % (v,), f['q'], f['file'], f['line'])
                if any(x is True for x in ok):
                    continue
                if s.approx or not ok or any(x is None for x in ok):
                    res.undecided += 1
                else:
                    res.bad('result', 'returns %r with text %r' % (v, got), f['q'], f['file'], f['line'])
            alarms(res, I, MEM)
    res.coverage = {'explanation': 'getErrorMessage_r is interpreted for every declared code and an undeclared one with a null buffer, sizes 0 and 1 and a symbolic size >= 1; on every path the return value, the buffer text and all writes are compared with the specification',
                    'functions': [f[1]['key'] for f in keys], 'paths': n_paths, 'texts_compared': shapes, 'obligations': obligations}
    return res


def message_of(P, E, s, code):
    """texts getErrorMessage gives for the code in this state"""
    I = E.I
    ks = [m['key'] for m in P.records[BASE]['methods'] if m['n'] == 'getErrorMessage' and m['np'] == 1]
    out = []
    for s2, v in E.call(s, None, ks[0], [code]):
        t = lit_of(I, s2, v)
        out.append(t)
    return [t for t in out if t is not None]


def same_text(I, s, got, want):
    if all(isinstance(p, bytes) for p in got.p):
        return b''.join(got.p) == want
    return None


def judge_r(I, s, v, got, want, cap):
    """True, None (cannot tell) or a complaint"""
    L = len(want)
    if s.ge0(sub(cap, L + 1)):
        if not s.eq(v, 0):
            return None if not I.exact(s, v, 0) else 'the message fits but the result is not 0'
        r = same_text(I, s, got, want)
        if r is True:
            return True
        return None if r is None else 'the message fits but the text is not the message'
    if s.gt0(sub(L + 1, cap)):
        # truncation
        if not s.eq(v, sub(cap, 1)):
            return None if not I.exact(s, v, sub(cap, 1)) else 'the message does not fit but the result is not the number of characters copied'
        n = slen(got)
        if not s.eq(n, sub(cap, 1)):
            return None if not I.exact(s, n, sub(cap, 1)) else 'the text is not the prefix that fits'
        lits = [p for p in got.p]
        if not lits:
            return True
        if len(lits) == 1:
            p = lits[0]
            if isinstance(p, bytes):
                return True if want.startswith(p) else 'the text is not a prefix of the message'
            if isinstance(p, Seg):
                src = p.src
                if src[0] == 'cat' and all(isinstance(x, bytes) for x in src[1].p):
                    return True if b''.join(src[1].p) == want and s.eq(p.off, 0) else 'the text is not a prefix of the message'
        return None
    return None


# ---------------------------------------------------------------- C31
BANNED = {
    'gethostbyname': 'static result buffer', 'gethostbyaddr': 'static result buffer', 'gethostbyname2': 'static result buffer', 'getservbyname': 'static result buffer',
    'getprotobyname': 'static result buffer', 'inet_ntoa': 'static result buffer', 'strtok': 'hidden position', 'rand': 'hidden generator state', 'srand': 'hidden generator state',
    'random': 'hidden generator state', 'localtime': 'static result', 'gmtime': 'static result', 'ctime': 'static result', 'asctime': 'static result', 'setlocale': 'process-wide locale',
    'tmpnam': 'static buffer', 'getpwnam': 'static result', 'getpwuid': 'static result', 'getlogin': 'static result', 'ttyname': 'static result', 'readdir': 'shared stream state',
    'signal': 'process-wide signal disposition', 'sigaction': 'process-wide signal disposition', 'umask': 'process-wide mask', 'chdir': 'process-wide working directory',
    'setenv': 'process-wide environment', 'putenv': 'process-wide environment', 'unsetenv': 'process-wide environment', 'mblen': 'hidden shift state', 'mbtowc': 'hidden shift state', 'wctomb': 'hidden shift state',
    'alarm': 'process-wide timer', 'setitimer': 'process-wide timer', 'drand48': 'hidden generator state', 'lrand48': 'hidden generator state', 'dlerror': 'shared state', 'basename': 'may use static storage', 'dirname': 'may use static storage',
    'sigprocmask': 'process-wide signal mask', 'std::locale::global': 'process-wide locale', 'ERR_load_crypto_strings_once': '', 'tzset': 'process-wide time zone', 'strsignal': 'static buffer', 'ecvt': 'static buffer', 'fcvt': 'static buffer',
}
BANNED.pop('ERR_load_crypto_strings_once')
MUTEX = re.compile(r'std::(mutex|recursive_mutex|once_flag|shared_mutex)$')


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def immutable(t, P, depth=0):
    """can nothing reachable through an object of this (const) type be modified?"""
    if t.k == 'arr':
        return immutable(t.to, P, depth)
    return bool(t.const)


def c31(P):
    res = Result()
    own_files = {f['file'] for f in P.funcs.values() if EXAMPLE not in f['file']}
    nvars = 0
    for gid, g in sorted(P.globals.items()):
        if EXAMPLE in g['file'] or g['file'].startswith('/'):
            continue
        nvars += 1
        t = g['t']
        if g.get('const') or immutable(t, P):
            continue
        if t.k == 'rec' and MUTEX.match(t.q or ''):
            continue
        kind = 'thread-local' if g.get('tls') else ('function-local static' if g.get('local') else 'global')
        res.bad('mutable-static', '%s variable %s of type %s is shared by all client objects' % (kind, g['q'], t.s), g['q'], g['file'], g.get('line'))
    ncalls = 0
    ext = {}
    nf = 0
    for key, f in sorted(P.funcs.items()):
        if EXAMPLE in f['file'] or f.get('body') is None:
            continue
        nf += 1
        for n in walk([f['body'], f.get('inits')]):
            if n.get('k') in ('call', 'mcall') and not n.get('repo') and 'q' in n:
                ncalls += 1
                q = n['q'].lstrip(':')
                ext[q] = ext.get(q, 0) + 1
                b = q[5:] if q.startswith('std::') else q
                if q in BANNED or (b in BANNED and n['k'] == 'call'):
                    res.bad('shared-libc-state', 'calls %s (%s)' % (q, BANNED.get(q) or BANNED.get(b)), f['q'], f['file'], n.get('l'))
            elif n.get('k') == 'ref' and n.get('dk') == 'fn':
                q = n.get('q', '').lstrip(':')
                b = q[5:] if q.startswith('std::') else q
                if b in BANNED and ('::' not in b):
                    pass
    # writes through casts to the constant globals
    res.anchors = {'external calls': ncalls, 'functions': nf}
    res.coverage = {'explanation': 'every variable with static storage duration in the library sources must be immutable, and no call in the resolved program may reach a C library function with hidden shared state (table in the checker)',
                    'static_variables': nvars, 'functions': nf, 'external_calls': ncalls, 'distinct_external_functions': len(ext), 'banned_table_entries': len(BANNED)}
    res.assumptions = ['glibc >= 2.32: strerror is thread safe', 'OpenSSL library state is internally synchronised']
    return res
