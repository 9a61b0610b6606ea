"""Zone keys are trusted only through a matching DS or root anchor.

verify_dnskeys: on every path that returns Ok a verify_rrsig over the complete given DNSKEY list returned Ok, with keys
from a list all of whose members were admitted on facts that force the same key tag, the same algorithm, and equality
of a DS's digest with the hash of exactly wire name, flags, protocol, algorithm and public key of that key.
verify_rr_stream: every verify_dnskeys call gets every supplied DNSKEY of one zone; the DS set is the built-in anchors
only where the facts force that zone to be the root, and otherwise the one stored together with that zone's name by a
step on which a signature over those DS records verified, under keys themselves accepted that way.  Every key list used
to check other records is such an accepted list of the signer's zone.
"""
RULE = 'facts at every admission of a key, every DS set stored, and every use of a key list'
from vs import *
from points import agree
import rules.c01 as c01


def check(ctx, rep):
    for r in runs_of(ctx, rep, 'verify_dnskeys'):
        dnskeys(rep, r)
    r = stream_run(ctx, rep)
    if r:
        stream(rep, r)


# ---------------------------------------------------------------- verify_dnskeys
def dnskeys(rep, r):
    w, n = r.f['span'], 0
    R = r.p(2)
    for st, v in r.rets:
        if is_err(v):
            continue
        for c in st.facts:
            ts = [t for t, q in c.d.items() if t.op == 'vsig' and q.single() == 0]
            if not ts:
                continue                     # judged by C11
            for t in ts:
                n += 1
                base = filtered(r, t.a[2])
                if t.a[2] is R or (base is R and t.a[2].op in ('sorted', 'rev')):
                    rep.good('whole', 'the whole DNSKEY list is verified', w)
                elif r.imprecise(t.a[2]) is not None:
                    rep.unknown('whole', show(t.a[2])[:160], w)
                else:
                    rep.bad('whole', 'the signature is checked over %s, not over all the DNSKEYs given' % show(t.a[2])[:160], w)
                keys(rep, r, t.a[1], w)
    rep.floor('accepting paths of verify_dnskeys', n, 1, hard=False)


def keys(rep, r, K, w):
    R, D = r.p(2), r.p(1)
    if K is R or filtered(r, K) is R and as_comp(r, K) is None:
        return rep.bad('ds', 'the DNSKEYs are checked with keys no DS vouches for', w)
    ad = admissions(r, K)
    if ad is None:
        return rep.unknown('ds', 'keys used: %s' % show(K)[:160], w)
    for item, d in ad:
        admit(rep, r, item, d, R, D, w)


def admit(rep, r, item, d, R, D, w):
    hs = []
    for t, q in d.items():
        if t.op == 'eq' and q.single() == 1:
            for a, b in (t.a, t.a[::-1]):
                if a.op == 'hash':
                    hs.append((a, b))
    from_given = any(x is R for x in subterms(item)) or any(x.op == 'opaqueit' for x in subterms(item))
    rep.judge('given', True if from_given else None, 'the key is one of those given', w)
    if not hs:
        vague = any(x in r.I.phis for t in d if t.op != 'done' for x in subterms(t)) or any(r.imprecise(t) is not None for t in d)
        weak = [t for t in d if any(x.op == 'hash' for x in subterms(t))]
        rep.judge('digest', None if vague and not weak else False, 'a key is admitted without its digest being equal to a DS\'s' + (': only %s' % show(weak[0])[:200] if weak else ''), w)
        return
    best = None
    for h, b in hs:
        if not (b.op == 'fld' and b.a[1] == 'digest'):
            res = [('digest', None if r.imprecise(b) is not None else False, 'the hash is compared with %s' % show(b)[:100])]
        else:
            res = one(r, item, d, h, b.a[0], D)
        if best is None or all(x[1] for x in res):
            best = res
    for nm, ok_, det in best:
        rep.judge(nm, ok_, det, w)


def one(r, item, d, h, ds, D):
    f = lambda n: mk('fld', item, n)
    want = [mk('wname', mk('fld', f('name'), '0')), be(16, f('flags')), be(8, f('protocol')), be(8, f('alg')), f('pubkey')]
    got = parts(h.a[1])
    out = []
    some = lambda xs: [x for x in xs if (n := d.get(seqlen(x))) is None or n.single() != 0]
    if got == want or some(got) == some(want):
        out.append(('digest', True, 'the digest is over name, flags, protocol, algorithm and key'))
    else:
        vague = r.imprecise(h.a[1]) is not None or any(x in r.I.phis for x in subterms(h.a[1])) or agree(h.a[1], want)
        out.append(('digest', None if vague else False, 'the digest is taken over %s' % ' ++ '.join(show(x)[:50] for x in got)))
    out.append(('ds', True if any(x is D for x in subterms(ds)) else None, 'the DS is one of those trusted: %s' % show(ds)[:80]))
    out.append(('tag', dsame(d, mk('keytag', item), mk('fld', ds, 'key_tag')) or tag_vague(r, d), 'the key tag equals the DS\'s'))
    out.append(('alg', dsame(d, f('alg'), mk('fld', ds, 'alg')) or tag_vague(r, d), 'the algorithm equals the DS\'s'))
    return out


def tag_vague(r, d):
    """False, or None when some fact is not understood."""
    return None if any(r.imprecise(t) is not None or any(x in r.I.phis and not seq_phi(r, x) for x in subterms(t)) for t in d) else False


# ---------------------------------------------------------------- verify_rr_stream
def stream(rep, r):
    w, n, m = r.f['span'], 0, 0
    done = set()
    for e in events(r, 'vdk'):
        S, D, R = e.args[:3]
        n += 1
        z, whole, det = comp_zone(r, R, 'DnsKey')
        rep.judge('zone:whole', whole, 'verify_dnskeys gets: ' + det, e.span or w)
        if z is None:
            continue
        for c in e.facts or ():
            trust(rep, r, c, D, z, e.span or w, done)
    for e in events(r, 'vsig'):
        for c in e.facts or ():
            m += 1
            ok_, det = c01.zone_keys(r, c, e.args[0], e.args[1])
            rep.judge('use', ok_, det, e.span or w)
    rep.floor('verify_dnskeys calls', n, 1, hard=False)
    rep.floor('uses of zone keys', m, 1, hard=False)


DOT = byts(b'.')


def trust(rep, r, c, D, z, w, done):
    if D.op == 'roothints' or (D.op in ('comp', 'stream') and any(x.op == 'roothints' for x in subterms(D))):
        q = F.cset(c, eq(DOT, z)) if z is not DOT else iset(1)
        if q.single() == 1:
            return rep.good('anchor', 'the built-in anchors vouch for the root only', w)
        if r.imprecise(z) is not None:
            return rep.unknown('anchor', show(z)[:100], w)
        return rep.bad('anchor', 'the built-in anchors are used for a zone that need not be the root (%s)' % show(z)[:80], w)
    base = D
    path = []
    while base.op == 'fld':
        path.append(base.a[1])
        base = base.a[0]
    if base.op != 'idx':
        if r.imprecise(D) is not None or D in r.I.phis:
            return rep.unknown('ds-set', show(D)[:160], w)
        m = as_comp(r, r.I.streams.get(D, D))
        if m is not None and m[0] is r.p(0):
            return rep.bad('ds-set', 'DS records are used without a verified signature: %s' % show(D)[:160], w)
        return rep.unknown('ds-set', show(D)[:160], w)
    zb = z
    while zb.op == 'fld':
        zb = zb.a[0]
    if zb is not base:
        zz = [t for t, q in c.d.items() if t.op == 'eq' and q.single() == 1 and any(x is z for x in t.a) and any(x is base for x in subterms(t))]
        rep.judge('ds-zone', True if zz else None if r.imprecise(z) is not None or z in r.I.phis else False, 'the DS set used is the one stored for that zone', w)
    else:
        rep.good('ds-zone', 'the DS set used is the one stored with that zone\'s name', w)
    L = base.a[0]
    if (L, tuple(path)) in done:
        return
    done.add((L, tuple(path)))
    bases, adds = sources(r, L)
    for b in bases:
        rep.unknown('ds-set', 'pending sets also from %s' % show(b)[:120], w)
    for item, fs in adds:
        for c2 in fs or ():
            stored(rep, r, c2, item, path, z, base, w)


def proj(item, path):
    """The component of a stored tuple or struct at a field path (innermost first given reversed)."""
    x = item
    for p in reversed(path):
        if x.op == 'agg' and x.a[0] == 'tuple' and str(p).isdigit():
            x = x.a[2][int(p)]
        else:
            x = mk('fld', x, p)
    return x


def stored(rep, r, c, item, path, z, base, w):
    S = proj(item, path)
    S = r.I.streams.get(S, S)
    zp = []
    x = z
    while x.op == 'fld' and x is not base:
        zp.append(x.a[1])
        x = x.a[0]
    N = proj(item, zp) if x is base else None
    vs_ = [t for t, q in c.d.items() if t.op == 'vsig' and q.single() == 0]
    if not vs_:
        if r.imprecise(S) is not None or not no_phi_guard(r, c):
            return rep.unknown('ds-set', 'stored %s' % show(S)[:120], w)
        return rep.bad('ds-set', 'a DS set is trusted without a verified signature over it', w)
    m = as_comp(r, S)
    if m is None:
        return rep.unknown('ds-set', 'stored %s' % show(S)[:160], w)
    s, alts, bv = m
    good = None
    for t in vs_:
        R = t.a[2]
        m2 = as_comp(r, R)
        if m2 is None or m2[0] is not s:
            continue
        ok_ = True
        for d, v in alts:
            if not any(all(subst(k, {m2[2]: bv}) in d and isubset(d[subst(k, {m2[2]: bv})], q) or F_cov(d, subst(k, {m2[2]: bv}), q, c) for k, q in d2.items()) for d2, v2 in m2[1]):
                ok_ = False
        if ok_:
            good = t
            break
    if good is None:
        vague = any(as_comp(r, t.a[2]) is None for t in vs_) or r.imprecise(S) is not None
        return rep.judge('ds-set', None if vague else False, 'the DS records trusted are not those whose signature verified: %s' % show(S)[:200], w)
    rep.good('ds-set', 'the DS records trusted are those whose signature verified', w)
    ok_, det = c01.zone_keys(r, c, good.a[0], good.a[1])
    rep.judge('ds-signer', ok_, 'the DS set is signed by: ' + det, w)
    if N is not None:
        nm = c01.signame(good.a[0])
        rep.judge('ds-owner', True if N is nm or same(c, N, nm) else None if r.imprecise(N) is not None else False, 'the set is stored for its owner', w)


def F_cov(d, k, q, c):
    """Whether facts d (on a record of known type) and the path's own facts imply k in q."""
    env = {t: z.single() for t, z in list(c.d.items()) + list(d.items()) if z.single() is not None}
    try:
        return q.has(evalt(k, env))
    except NoVal:
        return False
