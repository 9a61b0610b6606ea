"""A zone vouches only for names at or below it.

Every addition to a list made on a path on which an RRSIG verified (the verified records, the DS sets to follow, the
denial records) has facts that put the RRSIG's owner at or below its signer at a label boundary.  The label-boundary
test itself, and the one that decides which DNAME applies to a name, are tabulated over concrete names; a denial record
is used only for the zone that signed it.
"""
RULE = 'path facts at every addition under a verified signature; tabulation of the label-boundary test'
from vs import *
import names
from names import in_zone_implied
from rules import c01, c07, c13


def check(ctx, rep):
    names.all_helpers(ctx, rep, names.in_zone)
    r = stream_run(ctx, rep)
    if r:
        stream(rep, r)
        c07_tie(rep, r)
    for f in rep.need('VerifiedRRStream::resolve_name')[:1]:
        sub = type(rep)(rep.pid, ctx)
        c13.resolve(ctx, sub, f)
        for s, k, d, w in sub.items:
            if k == 'dname:below':
                rep._add(s, k, d, w)


def aliases(c, t):
    out, todo = {t}, [t]
    while todo:
        x = todo.pop()
        for k, q in c.d.items():
            if k.op == 'eq' and q.single() == 1 and any(y is x for y in k.a):
                for y in k.a:
                    if y not in out:
                        out.add(y)
                        todo.append(y)
    return out


def stream(rep, r):
    w, n = r.f['span'], 0
    # the test made before the signature is checked covers everything done after it
    evs = events(r, 'vsig')
    if evs and all(e.facts and all(implied(r, c, e.args[0]) is True for c in e.facts) for e in evs):
        rep.good('owner', 'an RRSIG is checked only if its owner is in the signer\'s zone', w)
        rep.good('floor:additions under a verified signature', '%d signature checks' % len(evs), w)
        return
    for p, inc in list(r.I.phis.items()):
        for v, fs in inc:
            if v.op not in ('push', 'ext') or v.a[0] is not p and not (v.op == 'push'):
                continue
            for c in fs or ():
                for t in c01.vsigs(c):
                    n += 1
                    one(rep, r, c, t, w)
    rep.floor('additions under a verified signature', n, 1, hard=False)


def implied(r, c, sig):
    nm, zn = c01.signame(sig), mk('fld', mk('fld', sig, 'key_name'), '0')
    # the zone whose keys were used is the signer (C01, C04); its name may be written as either
    best = None
    for a in aliases(c, nm):
        for b in aliases(c, zn):
            k = in_zone_implied(r, c, a, b)
            if k is True:
                return True
            best = best if best is not None and k is None else k
    return best


def one(rep, r, c, t, w):
    best = implied(r, c, t.a[0])
    if best is True:
        return rep.good('owner', 'a verified RRSIG has its owner in the signer\'s zone', w)
    if best is None:
        return rep.unknown('owner', 'not understood: %s' % str(c)[:200], w)
    rep.bad('owner', 'a signature by %s over %s is accepted' % (best[1].decode(), best[0].decode()), w)


def c07_tie(rep, r):
    w = r.f['span']
    for c, P in c07.settled(r):
        for x in {x for t in c.d if t.op not in ('exists',) for x in subterms(t) if x.op == 'fld' and x.a[1] in ('NSec.0', 'NSec3.0')}:
            k, det = c07.zone_tie(r, c, P, x)
            rep.judge('denial', k, det, w)
