#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's current source.  Exit 0 held, 1 violated."""
import importlib, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(HERE)
EVID = os.environ.get('SA_EVID', os.path.join(ROOT, 'evidence'))


def known(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if 'thorough' in sys.argv[2:]:
        tier = 'thorough'
    t0 = time.time()
    import base
    import dump
    ctx = base.Ctx(tier)
    rep = base.Rep(pid, ctx)
    mod = importlib.import_module('rules.' + pid.lower())
    try:
        mod.check(ctx, rep)
    except dump.DumpError as e:
        # the tree does not compile (or the tools are missing): nothing can be said about it
        rep.bad('build', str(e)[:400])
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.unknown('rule', 'the rule stopped: %s %s at %s:%d' % (type(e).__name__, str(e)[:120], os.path.basename(tb.filename), tb.lineno))
    kn = known(pid)
    bad = []
    for s, k, d, w in rep.items:
        if s != 'bad':
            continue
        hit = next((x for x in kn if x[0] == k), None)
        if hit:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, hit[1]))
        else:
            bad.append((k, d, w))
    n = {s: sum(1 for x in rep.items if x[0] == s) for s in ('ok', 'unknown', 'bad')}
    os.makedirs(EVID, exist_ok=True)
    samples = [{'status': s, 'obligation': k, 'detail': d[:300], 'where': w} for s, k, d, w in rep.items][:60]
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip(),
            'rule': getattr(mod, 'RULE', (mod.__doc__ or '').strip().split('\n')[0]),
            'obligations': len(rep.items), 'discharged': n['ok'], 'undecided': n['unknown'], 'violated': n['bad'],
            'functions_analysed': len(ctx.analysed), 'functions': sorted(ctx.analysed)[:80],
            'samples': samples,
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions; %.1f s' % (
        pid, len(rep.items), n['ok'], n['unknown'], n['bad'], len(ctx.analysed), time.time() - t0))
    for s, k, d, w in rep.items:
        if s == 'unknown' or '-v' in sys.argv:
            print('  %s %s: %s' % (s, k, d[:400 if '-v' in sys.argv else 200]))
    if bad:
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.txt')
        with open(rp, 'w') as fh:
            for k, d, w in bad:
                fh.write('%s\n  at %s\n  %s\n' % (k, w, d))
        for k, d, w in bad:
            print('  violated %s at %s: %s' % (k, w, d[:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


main()
