#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current source by static analysis.

exit 0  nothing found (listed known findings are printed as KNOWN-FINDING lines)
exit 1  a violation that is not listed: one 'VIOLATION property=<id> replay=<file>' line per finding
exit 2  the check could not do its work (source does not parse, an anchor vanished, internal error)
"""
import importlib, json, os, sys, time, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
MODULES = {}
for mod, ids in {
    'tables': 'C28 C29 C31',
    'lifecycle': 'C18 C19 C20 C21 C23 C24 C26',
    'session': 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C22 C25 C27 C32 C33 C34 C35 C36 C38 C42',
    'facade': 'C30',
    'bits': 'C37',
}.items():
    for i in ids.split():
        MODULES[i] = mod


class CheckError(Exception):
    """the check cannot give an answer"""


def known():
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                head, _, what = l[7:].partition(' -- ')
                kv = dict(x.split('=', 1) for x in head.split())
                out.setdefault(kv['property'], []).append((kv['key'], what))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from sa.facts import load
    try:
        P = load()
        mod = importlib.import_module('checks.' + MODULES[pid])
        res = mod.run(pid, P, tier)
    except Exception as e:
        traceback.print_exc()
        print('ERROR property=%s %s: %s' % (pid, type(e).__name__, e))
        return 2
    kn = known().get(pid, [])
    new, old = [], []
    for v in res.violations:
        (old if any(v.key == k for k, _ in kn) else new).append(v)
    cov = dict(res.coverage)
    cov.setdefault('functions_in_program', len([f for f in P.funcs.values() if f.get('body') is not None]))
    cov['translation_units'] = len(P.units)
    cov['undecided'] = res.undecided
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for v in old:
        if v.key not in seen:
            seen.add(v.key)
            print('KNOWN-FINDING: property=%s %s' % (pid, dict(kn)[v.key]))
    if new:
        d = os.path.join(ROOT, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v in new:
            if v.key in seen:
                continue
            seen.add(v.key)
            fn = os.path.join(d, '%s-%d.txt' % (pid, len(seen)))
            with open(fn, 'w') as f:
                f.write(v.text(pid))
            if len(seen) <= 8:
                print('%s:%s: %s: [%s] %s' % (v.file, v.line, v.fn, v.rule, v.msg[:400]))
                print('VIOLATION property=%s replay=%s' % (pid, fn))
        return 1
    zero = [k for k in res.anchors if not res.anchors[k]]
    if zero:
        print('ERROR property=%s nothing was analysed for: %s' % (pid, ', '.join(zero)))
        return 2
    print('OK property=%s %s' % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))})))
    return 0


if __name__ == '__main__':
    sys.exit(main())
