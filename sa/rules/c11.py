"""Each RRSIG costs at most one public-key check and failure aborts.

In verify_rrsig no path may reach a second signature check or another loop iteration once one was made, and a failed
check has to end in Err(Invalid).  In verify_dnskeys and verify_rr_stream nothing (no further iteration, verification
or success) may follow a verification that returned Invalid, the path has to return Err(Invalid), the same RRSIG is
never verified again on a path, and success needs a verification that returned Ok.
"""
RULE = 'facts at every loop re-entry, verification and return: none may carry a finished public-key check'
from vs import *
from rules import c01, c04


def err_code(v):
    if is_err(v) and pay(v).op == 'agg':
        return pay(v).a[1]
    return None


def check(ctx, rep):
    for r in runs_of(ctx, rep, 'verify_rrsig'):
        rrsig(rep, r)
    for r in runs_of(ctx, rep, 'verify_dnskeys'):
        after(rep, r, ('vsig',))
        for st, v in r.rets:
            if not is_err(v):
                for c in st.facts:
                    rep.judge('needs-ok', proved(r, v, c, set()), 'keys are accepted only after a signature verified', r.f['span'])
    r = stream_run(ctx, rep)
    if r:
        after(rep, r, ('vsig', 'vdk'))
        # records become verified only by a signature that did verify
        sub = type(rep)(rep.pid, ctx)
        c01.stream(ctx, sub, r)
        for s, k, d, w in sub.items:
            if k in ('add', 'add:set') and s in ('bad', 'ok'):
                rep._add(s, 'verified', d, w)
            elif k == 'add:member' and s == 'ok':
                rep._add(s, 'verified', 'a record is added only on a path on which a signature verified', w)
        sub = type(rep)(rep.pid, ctx)
        c04.stream(sub, r)
        for s, k, d, w in sub.items:
            if k == 'ds-set' and (s == 'ok' or 'without a verified signature' in d):
                rep._add(s, 'verified:ds', d, w)


def proved(r, v, c, seen):
    """Whether the RRSIG returned as verified did verify: on this path, or where the loop value it comes from was set."""
    xs = [x for x in subterms(v) if x in r.I.phis and x.op != 'seqdrv' and any(w is not x and w.op != 'int' for w, _ in r.I.phis[x])]
    outcome = [q for t, q in c.d.items() if t.op == 'vsig' and any(y is t.a[0] for y in subterms(v))]
    if any(q.single() == VE_OK for q in outcome):
        return True
    if any(not q.has(VE_OK) for q in outcome):
        return False
    if any(t.op == 'vsig' and q.single() == VE_OK for t, q in c.d.items()):
        return True
    res = []
    for x in xs:
        if x in seen:
            continue
        seen.add(x)
        for w, fs in r.I.phis[x]:
            if w is x or is_none(w) or not any(y.op in ('elem', 'itelem', 'idx') for y in subterms(w)):
                continue
            res += [proved(r, w, c2, seen) for c2 in fs]
    if False in res:
        return False
    if res and all(res):
        return True
    if not xs and r.imprecise(v) is None and no_phi_guard(r, c):
        return False
    return None


def rrsig(rep, r):
    w, n = r.f['span'], 0
    ves = events(r, 'verify')
    for e in ves:
        n += 1
        two = [t for c in e.facts for t in c.d if t.op == 'sigok']
        if two:
            rep.bad('once', 'a second public-key check is reachable after one was made', e.span or w)
        else:
            rep.good('once', 'no check precedes this one', w)
    for (cx, b), (blocks, states) in r.I.loops.items():
        for s in states:
            if any(t.op == 'sigok' for c in s.facts for t in c.d):
                rep.bad('loop', 'the loop over the keys goes on after a public-key check', w)
    rep.good('loop', '%d loops examined' % len(r.I.loops), w)
    for st, v in r.rets:
        for c in st.facts:
            for t, q in c.d.items():
                if t.op == 'sigok' and q.single() == 0:
                    k = err_code(v)
                    if k is None and not is_err(v):
                        rep.bad('fail', 'a failed check does not end in an error', w)
                    elif k is None:
                        rep.unknown('fail', show(v)[:80], w)
                    else:
                        rep.judge('fail', k == r_invalid(r), 'a failed check ends in %s' % ('Invalid' if k == r_invalid(r) else 'another error, which validation skips over'), w)
                elif t.op == 'sigok' and q.single() is None:
                    rep.unknown('fail', 'outcome not separated on return', w)
    rep.floor('public-key checks', n, 1)


def r_invalid(r):
    p = adt_path(r.P, 'validation::ValidationError')
    for i, v in enumerate(r.P.adt[p]['v']):
        if v['n'] == 'Invalid':
            return i
    return None


def after(rep, r, ops):
    w, n = r.f['span'], 0
    places = [('another iteration follows', fs) for inc in r.I.phis.values() for _, fs in inc]
    places += [('another iteration follows', s.facts) for _, states in r.I.loops.values() for s in states]
    places += [('it succeeds', st.facts) for st, v in r.rets if not is_err(v)]
    places += [('%s follows' % e.name, e.facts) for e in r.evs if e.kind != 'panic' and e.kind != 'assert']
    for what, fs in places:
        for c in fs or ():
            for t, q in c.d.items():
                if t.op in ops:
                    n += 1
                    rep.judge('abort:' + shortkey(r.f['path']), not q.has(VE_INVALID), '%s after a signature was found invalid' % what if q.has(VE_INVALID) else 'nothing follows an invalid signature', w)
    inv = r_invalid(r)
    for st, v in r.rets:
        if is_err(v):
            for c in st.facts:
                for t, q in c.d.items():
                    if t.op in ops and q.single() == VE_INVALID:
                        k = err_code(v)
                        rep.judge('error:' + shortkey(r.f['path']), None if k is None else k == inv, 'an invalid signature ends in Err(Invalid)' if k == inv else 'an invalid signature ends in another error', w)
    for e in r.evs:
        if e.name in ops or e.kind in ops:
            sg = e.args[0] if e.args else None
            again = [t for c in e.facts for t in c.d if t.op in ops and sg is not None and t.op == 'vsig' and t.a[0] is sg]
            if again:
                rep.bad('again:' + shortkey(r.f['path']), 'the same RRSIG is verified again', w)
            else:
                rep.good('again:' + shortkey(r.f['path']), 'each RRSIG is verified once on a path', w)
    rep.floor('places after a verification in ' + shortkey(r.f['path']), n, 1, hard=False)
