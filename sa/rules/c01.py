"""Only records under a verified signature are returned as verified.

verify_rrsig: every path that returns Ok carries the outcome "signature valid" of a ring verification of the
RRSIG's own signature bytes with a key taken from the given keys, and the path's facts force that key's protocol,
zone flag, tag and algorithm.  verify_rr_stream: every element that can ever be put in the returned list is, on the
path that puts it there, a member of the record set R handed to a verify_rrsig call that returned Ok there; R is the
complete set of supplied records with the RRSIG's owner and type; the keys handed in are DNSKEYs of the zone the
RRSIG names as signer, of a set accepted by verify_dnskeys on the same path; and no path on which a verification
returned Invalid continues.
"""
RULE = 'path facts at every addition to the verified set; completeness of the set handed to signature verification'
from vs import *


def check(ctx, rep):
    for r in runs_of(ctx, rep, 'verify_rrsig'):
        rrsig(rep, r)
    r = stream_run(ctx, rep)
    if r:
        stream(ctx, rep, r)


def rrsig(rep, r):
    w = r.f['span']
    sg, n = r.p(0), 0
    for st, v in r.rets:
        if is_err(v):
            continue
        for c in st.facts:
            n += 1
            so = sigoks(c)
            if not so:
                if r.imprecise(v) or not no_phi_guard(r, c):
                    rep.unknown('accept', 'not derived: %r' % c, w)
                else:
                    rep.bad('accept', 'accepts without a successful signature check when %s' % str(c)[:300], w)
                continue
            best = None
            for t in so:
                res = key_ok(rep, r, c, t, sg, w)
                if best is None or (res and all(x[1] for x in res)):
                    best = res
            for nm, okk, det in best:
                rep.judge('accept:' + nm, okk, det, w)
    rep.floor('accepting paths of verify_rrsig', n, 1)


def key_ok(rep, r, c, t, sg, w):
    alg, key, msg, s = t.a[0], t.a[1], t.a[2], t.a[3]
    out = [('signature', s is mk('fld', sg, 'signature'), 'checks %s' % show(s)[:80])]
    K = keybase(key)
    if K is None:
        return out + [('key', None, 'key %s' % show(key)[:120])]
    p = r.p(1)
    out.append(('given', any(x is p for x in subterms(K)) or None, 'the key is one of those given: %s' % show(K)[:80]))
    out.append(('protocol', entails(c, mk('fld', K, 'protocol'), iset(3)), 'protocol in %r' % F.cset(c, mk('fld', K, 'protocol'))))
    fl = flag_values(c, mk('fld', K, 'flags'), [v for v in range(65536) if not v & 0x100])
    out.append(('zone-flag', None if fl is None else not fl, 'accepts flags %s without the zone-key bit' % (fl or [])[:4] if fl else 'flags have the zone-key bit'))
    out.append(('tag', same(c, mk('keytag', K), mk('fld', sg, 'key_tag')), 'key tag equals the RRSIG\'s'))
    out.append(('algorithm', same(c, mk('fld', K, 'alg'), mk('fld', sg, 'alg')), 'algorithm equals the RRSIG\'s'))
    return out


def signame(sig):
    if sig.op == 'fld' and sig.a[1] == 'RRSig.0':
        return mk('fld', mk('rrname', sig.a[0]), '0')
    return mk('fld', mk('fld', sig, 'name'), '0')


def complete(r, sig, R):
    """R holds exactly the supplied records with the RRSIG's owner and type: (verdict, detail)."""
    m = as_comp(r, R)
    if m is None:
        return None, show(R)[:160]
    s, alts, bv = m
    if s is not r.p(0):
        return None, 'taken from %s' % show(s)[:100]
    if len(alts) != 1:
        return None, '%d ways into the set' % len(alts)
    d, v = alts[0]
    x = idx(s, bv)
    if v is not x:
        return None, 'elements %s' % show(v)[:100]
    nm, ty = mk('fld', mk('rrname', x), '0'), mk('fld', sig, 'ty')
    named, rest = False, []
    for k, z in d.items():
        if k is eq(nm, signame(sig)) and z.single() == 1:
            named = True
        else:
            rest.append((k, z))
    if not named:
        return (False, 'records of other owners enter the signed set: %s' % show(R)[:200])
    P = r.P
    rrp = adt_path(P, 'rr::RR')
    for i, var in enumerate(P.adt[rrp]['v']):
        n = RRTYPES.get(var['n'])
        if n is None:
            continue
        for m_ in BYNUM:
            if m_ in (46, 48):
                continue
            env = {mk('discr', x): i, ty: m_, mk('rrty', x): n[0]}
            try:
                got = all(z.has(evalt(k, env)) for k, z in rest)
            except NoVal:
                un = [k for k, z in rest if r.imprecise(k)]
                return (None if un else False), 'the set is further restricted: %s' % ', '.join(show(k)[:120] for k, _ in rest)
            if got != (n[0] == m_):
                return False, 'a record of type %s is %s the set of an RRSIG over type %d' % (n[1], 'in' if got else 'left out of', m_)
    return True, 'all supplied records of that owner and type'


def strays(r, sig, S, c):
    """A record of another type than the RRSIG covers that is in the set S of supplied records."""
    m = as_comp(r, S)
    if m is None or m[0] is not r.p(0) or len(m[1]) != 1 or m[1][0][1] is not idx(m[0], m[2]):
        return None
    x, ty = idx(m[0], m[2]), mk('fld', sig, 'ty')
    rest = [(k, z) for k, z in m[1][0][0].items() if k.op != 'eq' or z.single() != 1]
    for i, var in enumerate(r.P.adt[adt_path(r.P, 'rr::RR')]['v']):
        n = RRTYPES.get(var['n'])
        for m_ in BYNUM:
            if n is None or n[0] == m_ or m_ in (46, 48):
                continue
            env = {mk('discr', x): i, ty: m_, mk('rrty', x): n[0]}
            try:
                tyq = F.cset(c, ty)
                if tyq.has(m_) and all(z.has(evalt(k, env)) for k, z in rest):
                    return 'records of type %s when it covers type %d' % (n[1], m_)
            except NoVal:
                return None
    return None


def zone_keys(r, c, sig, K):
    """K are DNSKEYs of the zone the RRSIG names, from a set accepted by verify_dnskeys: (verdict, detail)."""
    m = as_comp(r, K)
    if m is None:
        return None, show(K)[:160]
    s, alts, bv = m
    if s is not r.p(0):
        return None, 'taken from %s' % show(s)[:100]
    kn = mk('fld', mk('fld', sig, 'key_name'), '0')
    x = mk('fld', mk('rrname', idx(s, bv)), '0')
    zones = set()
    for d, v in alts:
        z = {o for k, q in d.items() if k.op == 'eq' and q.single() == 1 and any(y is x for y in k.a) for o in k.a if o is not x}
        if not z:
            return False, 'keys of any zone are used: %s' % show(K)[:160]
        zones |= z
    if not any(same(c, kn, z) for z in zones):
        return (None if r.imprecise(kn) else False), 'the RRSIG\'s signer is not tied to the zone of the keys %s' % [show(z)[:60] for z in zones]
    for t, q in c.d.items():
        if t.op == 'dkok' and q.single() == 1:
            if t.a[0] is K:
                return True, 'DNSKEYs of the signer, accepted by verify_dnskeys'
            m2 = as_comp(r, t.a[0])
            if m2 and len(m2[1]) == len(alts) == 1 and m2[0] is s:
                d2 = {subst(k, {m2[2]: bv}): q2 for k, q2 in m2[1][0][0].items()}
                if all(k in alts[0][0] and isubset(alts[0][0][k], q2) for k, q2 in d2.items()):
                    return True, 'a subset of the DNSKEYs accepted by verify_dnskeys'
                return False, 'the keys used are not those accepted by verify_dnskeys'
    return None, 'no accepted key set on this path'


def additions(r, v):
    """(source sequence, additions) of the returned verified set."""
    s = filtered(r, v)
    bases, adds = growth(r, s)
    return s, bases, adds


def stream(ctx, rep, r):
    P, w, n = r.P, r.f['span'], 0
    for st, v in r.rets:
        if is_err(v):
            continue
        if not is_ok(v) or pay(v).op != 'agg':
            rep.unknown('result', show(v)[:160], w)
            continue
        V = getf(P, pay(v), 'validation::VerifiedRRStream', 'verified_rrs')
        s, bases, adds = additions(r, V)
        for b in bases:
            if b is not NIL:
                if b is r.p(0):
                    rep.bad('source', 'the supplied records themselves are returned', w)
                else:
                    rep.unknown('source', 'also from %s' % show(b)[:160], w)
        for kind, item, fs in adds:
            n += 1
            if kind != 'push':
                addset(rep, r, item, fs, w)
                continue
            for c in fs:
                one(rep, r, c, item, w)
    rep.floor('additions to the verified set', n, 1)
    aborts(rep, r, w)


def vsigs(c):
    return [t for t, q in c.d.items() if t.op == 'vsig' and q.single() == 0]


def addset(rep, r, S, fs, w):
    for c in fs or ():
        vs = vsigs(c)
        hit = [t for t in vs if t.a[2] is S or filtered(r, S) is t.a[2]]
        if hit:
            judge_sig(rep, r, c, hit[0], w)
        elif len(vs) == 1 and strays(r, vs[0].a[0], S, c):
            rep.bad('add:set', 'adds, for a verified RRSIG, also %s' % strays(r, vs[0].a[0], S, c), w)
        elif vs or r.imprecise(S):
            rep.unknown('add', 'adds %s' % show(S)[:160], w)
        else:
            rep.bad('add', 'adds %s without a verified signature' % show(S)[:160], w)


def one(rep, r, c, item, w):
    vs = vsigs(c)
    if not vs:
        if r.imprecise(item) or not no_phi_guard(r, c):
            rep.unknown('add', 'adds %s' % show(item)[:100], w)
        else:
            rep.bad('add', 'a record is added to the verified set without a verified signature on the path %s' % str(c)[:300], w)
        return
    ms = [(member(r, c, item, t.a[2]), t) for t in vs]
    t = next((t for m, t in ms if m), None)
    if t is None:
        if any(m is None for m, _ in ms):
            return rep.unknown('add:member', 'adds %s' % show(item)[:100], w)
        return rep.bad('add:member', 'adds %s, which is not a member of the verified set %s' % (show(item)[:100], show(ms[0][1].a[2])[:200]), w)
    rep.good('add:member', 'each record added is in the set just verified', w)
    judge_sig(rep, r, c, t, w)


def judge_sig(rep, r, c, t, w):
    ok_, det = complete(r, t.a[0], t.a[2])
    rep.judge('add:complete', ok_, det, w)
    ok_, det = zone_keys(r, c, t.a[0], t.a[1])
    rep.judge('add:keys', ok_, det, w)
    s = t.a[0]
    rep.judge('add:supplied', any(x is r.p(0) for x in subterms(s)) or None, 'the RRSIG is one of those supplied', w)


def aborts(rep, r, w):
    """No loop iteration, later verification or success follows a verification that returned Invalid."""
    places = [('continues', fs) for inc in r.I.phis.values() for _, fs in inc]
    places += [('continues', s.facts) for _, states in r.I.loops.values() for s in states]
    places += [('succeeds', st.facts) for st, v in r.rets if not is_err(v)]
    places += [('goes on to %s' % e.name, e.facts) for e in r.evs]
    n = 0
    for what, fs in places:
        for c in fs or ():
            for t, q in c.d.items():
                if t.op in ('vsig', 'vdk'):
                    n += 1
                    rep.judge('abort:' + t.op, not q.has(VE_INVALID), 'validation %s after a signature was found invalid' % what if q.has(VE_INVALID) else 'nothing follows an invalid signature', w)
    rep.floor('places after a verification', n, 1, hard=False)
