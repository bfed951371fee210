"""C18/C19 ownership, C20 copies, C21 moves, C23 rejected arguments, C24 aliased arguments: life-cycle scenarios of every
public class, interpreted over symbolic contents (sa/values.py)."""
import multiprocessing as mp
import os
import signal
from sa.values import Lives, CLIENT
from sa import values
from .common import Result

MEM = {'null', 'uninit', 'dangling', 'uaf', 'oob-read', 'oob-write', 'unterminated', 'lit-write', 'mismatch', 'double-free', 'bad-free',
       'uninit-free', 'leak', 'nonvirtual-delete', 'recursion', 'no-return', 'div0', 'pure-call'}
OWN = {'dangling', 'uaf', 'mismatch', 'double-free', 'bad-free', 'uninit-free', 'leak', 'nonvirtual-delete', 'uninit', 'null', 'oob-read', 'oob-write',
       'unterminated', 'lit-write'}
PROG = None
JOB_LIMIT = 400


def classes(P):
    """instantiable public classes of the library: (value classes, client classes)"""
    vals, clients = [], []
    for q in sorted(P.records):
        r = P.records[q]
        if not q.startswith('jed_utils::') or r.get('abstract') or 'example/' in r.get('file', ''):
            continue
        ctors = [m for m in r['methods'] if m['kind'] == 'ctor' and m['acc'] == 'public' and not m.get('deleted') and not m.get('copy') and not m.get('move') and m['np']]
        if not ctors or '$' in q or '(' in q:
            continue
        (clients if P.derives(q, CLIENT) else vals).append(q)
    return vals, clients


def job(a):
    cls, parts = a
    signal.alarm(JOB_LIMIT)
    try:
        L = Lives(PROG, cls)
        must = 0
        try:
            if parts == ('must',):
                must = L.part_must()
            else:
                L.run(parts)
        except values.Budget:
            L.unsure[('budget', cls)] = 'analysis budget exceeded'
        except Timeout:
            L.unsure[('time', cls, parts)] = 'analysis time exceeded'
        al = [(x.rule, x.msg, x.fn, x.file, x.line, [str(s) for s in (x.stack or ())] + [str(s) for s in (x.trace or ())], x.extra) for x in L.I.alarms.values()]
        fi = [(f.rule, f.msg, f.fn, f.file, f.line, [str(s) for s in f.trace]) for f in L.findings]
        return dict(cls=cls, parts=parts, alarms=al, findings=fi, unsure=[str(k) for k in L.unsure], und=len(L.I.undecided),
                    undk=[str(k) for k in list(L.I.undecided)[:5]], nobj=L.nobj, scen=L.scen, checked=L.checked, calls=L.I.calls,
                    obl=sum(L.I.obligations.values()) if isinstance(L.I.obligations, dict) else 0, rejecting=len(L.rejecting),
                    skipped=[str(k) for k in set(L.skipped)], must=must, vague=L.vague)
    finally:
        signal.alarm(0)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_jobs(P, jobs):
    global PROG
    PROG = P
    signal.signal(signal.SIGALRM, _alarm)
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 4)) as pool:
        return pool.map(job, jobs, chunksize=1)


RULES = {
    'C18': ('each public value class is constructed from symbolic inputs, every public method, copy, move, assignment, setter and destructor is interpreted, and every heap block must be released exactly once with the matching delete', None),
    'C19': ('each client class is constructed, configured, copied, moved, assigned and destroyed over symbolic inputs (not connected); heap blocks must be released exactly once', None),
    'C20': ('what the getters of a copy return is compared with what the getters of the original returned, before and after either object is changed or destroyed', 'copy'),
    'C21': ('what the getters of the move target return is compared with what the source returned; the source is destroyed and assigned again', 'move'),
    'C23': ('arguments that must be rejected are, and a rejecting call leaves the getters as they were', 'reject'),
    'C24': ('every setter is given the value of every type-compatible getter of the same object', 'alias'),
}


def run(pid, P, tier):
    if pid == 'C26':
        from . import buffers
        return buffers.run(pid, P, tier)
    res = Result()
    vals, clients = classes(P)
    res.anchors['value classes'] = len(vals)
    res.anchors['client classes'] = len(clients)
    heavy = [c for c in vals if 'Message' in c and 'Address' not in c]
    jobs = []
    if pid == 'C18':
        for c in heavy:
            jobs += [(c, ('basic',)), (c, ('copy',)), (c, ('move',)), (c, ('set', 'alias', 'reject'))]
        jobs += [(c, ('basic', 'copy', 'move', 'set', 'alias', 'reject')) for c in vals if c not in heavy]
    elif pid == 'C19':
        jobs = [(c, ('basic', 'copy', 'move', 'set', 'alias', 'reject')) for c in clients]
    elif pid == 'C23':
        jobs = [(c, ('must',)) for c in vals + clients] + [(c, ('reject',)) for c in vals + clients]
    else:
        jobs = [(c, (RULES[pid][1],)) for c in heavy + [c for c in vals if c not in heavy] + clients]
    out = run_jobs(P, jobs)
    rule = RULES[pid][1]
    for r in out:
        for x in r['alarms']:
            if pid in ('C18', 'C19') and x[0] in OWN or pid == 'C24' and x[6] and x[6][0] == 'alias' and x[0] in OWN:
                msg = x[1] if pid != 'C24' else '%s (argument of %s() obtained from %s())' % (x[1], x[6][1], x[6][2])
                res.bad(x[0], msg, x[2], x[3], x[4], x[5])
            elif pid == 'C21' and x[0] in ('uaf', 'double-free', 'dangling', 'null', 'uninit-free', 'uninit'):
                res.bad(x[0], x[1], x[2], x[3], x[4], x[5])
            elif pid == 'C20' and x[0] in ('uaf', 'double-free', 'dangling', 'uninit'):
                res.bad(x[0], x[1], x[2], x[3], x[4], x[5])
            elif pid == 'C23' and x[0] == 'leak':
                res.bad(x[0], x[1], x[2], x[3], x[4], x[5])
        for f in r['findings']:
            if f[0] == rule or pid == 'C23' and f[0] == 'accepted' or pid == 'C20' and f[0] == 'set':
                res.bad(f[0], f[1], f[2], f[3], f[4], f[5])
        res.undecided += len(r['unsure']) + r['und']
    checked = {}
    for r in out:
        for k, v in r['checked'].items():
            checked[k] = checked.get(k, 0) + v
    if rule == 'copy' or rule == 'move':
        res.anchors['comparisons'] = checked.get(rule, 0)
    if pid == 'C23':
        res.anchors['rejections required'] = sum(r['must'] for r in out)
        res.anchors['rejecting functions'] = sum(r['rejecting'] for r in out)
    if pid == 'C24':
        res.anchors['aliased calls'] = checked.get('alias', 0)
    sessions = None
    if pid == 'C19':
        from . import session
        sessions = session
    res.anchors['objects'] = sum(r['nobj'] for r in out)
    res.coverage = {'explanation': RULES[pid][0], 'classes': len(vals) if pid == 'C18' else len(clients) if pid == 'C19' else len(vals) + len(clients),
                    'class_list': vals if pid == 'C18' else clients if pid == 'C19' else vals + clients,
                    'object_states': sum(r['nobj'] for r in out), 'scenarios_ended': sum(r['scen'] for r in out), 'calls_interpreted': sum(r['calls'] for r in out),
                    'comparisons': checked, 'memory_obligations': sum(r['obl'] for r in out), 'required_rejections': sum(r['must'] for r in out),
                    'contents_not_comparable': sum(r['vague'] for r in out),
                    'skipped_functions': sorted(set(k for r in out for k in r['skipped'])),
                    'unsure': sorted(set(k for r in out for k in r['unsure']))[:20], 'undecided_sites': sorted(set(k for r in out for k in r['undk']))[:20]}
    res.assumptions = ['text lengths and element counts are below 2^30', 'C strings given by the caller contain no embedded NUL',
                       'allocation does not fail', 'a null array pointer comes with a count of zero']
    if sessions is not None:
        js = sessions.plan(pid, tier)
        sessions.apply(res, pid, sessions.run_jobs(P, [dict(j, stop=pid) for j in js]), js)
        res.coverage['explanation'] = RULES[pid][0] + '; ' + sessions.TEXT[pid]
    return res
