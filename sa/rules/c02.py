"""Algorithm and digest numbers select the right primitive.

verify_rrsig: on every path that returns Ok, the RRSIG's algorithm number (as forced by the path's facts) is exactly
the one whose ring primitive was asked, and the key bytes handed over are the DNSKEY's public key in that algorithm's
form; each of the five numbers has such a path and none of them is ever reported as unsupported.  The RSA key splitter:
its extracted closed form agrees with RFC 3110 on all first bytes and length classes.  verify_dnskeys: on every path
that admits a key, the digest type (as forced by the facts) is 2 with SHA-256 or 1 with SHA-1, the latter only with the
fact that no DS of the set has type 2 or 4.
"""
RULE = 'path facts on the algorithm number at every accepting path; closed form of the RSA key split; facts at every admission of a key'
from vs import *
SPEC = {8: 'RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY', 10: 'RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY',
        13: 'ECDSA_P256_SHA256_FIXED', 14: 'ECDSA_P384_SHA384_FIXED', 15: 'ED25519'}
FAMILY = {8: ('RSA_PKCS1_', '_SHA256'), 10: ('RSA_PKCS1_', '_SHA512'), 13: ('ECDSA_P256_SHA256_FIXED', ''), 14: ('ECDSA_P384_SHA384_FIXED', ''), 15: ('ED25519', '')}


def right(n, prim):
    a, b = FAMILY[n]
    return prim.startswith(a) and b in prim if b else prim == a


def check(ctx, rep):
    for r in runs_of(ctx, rep, 'verify_rrsig'):
        algs(rep, r)
    rsa(ctx, rep)
    for r in runs_of(ctx, rep, 'verify_dnskeys'):
        digests(rep, r)


def algs(rep, r):
    w = r.f['span']
    A = mk('fld', r.p(0), 'alg')
    seen = set()
    for st, v in r.rets:
        if is_err(v):
            e = pay(v)
            if e.op == 'agg' and e.a[1] == 0:
                for c in st.facts:
                    hit = [n for n in SPEC if F.cset(c, A).has(n)]
                    if hit and no_phi_guard(r, c):
                        rep.judge('unsupported', False if len(hit) < 5 else None, 'algorithm %s is reported as unsupported' % hit, w)
                    elif not hit:
                        rep.good('unsupported', 'only other algorithm numbers are reported as unsupported', w)
            continue
        for c in st.facts:
            so = sigoks(c)
            if not so:
                rep.unknown('primitive', 'no signature check on %s' % str(c)[:200], w)     # judged by C01
                continue
            al = F.cset(c, A)
            for t in so:
                prim, key = t.a[0], t.a[1]
                pn = prim if isinstance(prim, str) else show(prim)
                K = keybase(key)
                ka = F.cset(c, mk('fld', K, 'alg')) if K is not None else al
                al2 = iinter(al, ka) if K is not None and same(c, mk('fld', K, 'alg'), A) else al
                vals = [n for n in range(256) if al2.has(n)]
                wrong = [n for n in vals if n not in SPEC]
                if wrong:
                    rep.judge('number', None if r.imprecise(A) or len(vals) == 256 and not no_phi_guard(r, c) else False,
                              'algorithm number %s is accepted (checked with %s)' % (wrong[:4], pn), w)
                for n in vals:
                    if n not in SPEC:
                        continue
                    seen.add(n)
                    known_prim = any(right(m, pn) for m in SPEC)
                    rep.judge('primitive:%d' % n, right(n, pn) or (False if known_prim or '_' in pn else None), 'algorithm %d is checked with %s' % (n, pn), w)
                    rep.judge('key:%d' % n, keyform(r, n, key, K), 'algorithm %d takes its key from %s' % (n, show(key)[:120]), w)
    for n in SPEC:
        if n not in seen:
            rep.judge('missing:%d' % n, None if any(not no_phi_guard(r, c) for st, v in r.rets for c in st.facts) else False, 'no accepting path for algorithm %d' % n, w)


def keyform(r, n, key, K):
    if K is None:
        return None if r.imprecise(key) else False
    pk = mk('fld', K, 'pubkey')
    if n in (8, 10):
        if key.op == 'rsacomp':
            return key.a[0] is pk
        if key.op == 'agg':
            return rsa_split(r, pk, key)
        return None
    if n in (13, 14):
        ps = parts(key)
        if len(ps) == 2 and ps[0].op == 'bytes' and ps[1] is pk:
            return ps[0].a[0] == b'\x04'
        return False if len(ps) == 1 and ps[0] is pk else None
    return key is pk or (None if any(x in r.I.phis for x in subterms(key)) else False)


def rsa_split(r, pk, key):
    return None


def spec_rsa(b):
    """(exponent, modulus) or None for a malformed key."""
    if len(b) < 1:
        return None
    if b[0] == 0:
        if len(b) < 3:
            return None
        n, pos = b[1] * 256 + b[2], 3
    else:
        n, pos = b[0], 1
    if len(b) <= pos + n:
        return None
    return b[pos:pos + n], b[pos + n:]


def rsa(ctx, rep):
    fs = ctx.fns('bytes_to_rsa_pk')
    if not fs:
        return rep.unknown('rsa', 'no function splits RSA keys separately')
    r = ctx.run(fs[0])
    w = fs[0]['span']
    if not r.ok or r.unmod():
        return rep.unknown('rsa', r.why or str(r.unmod()), w)
    p = r.p(0)
    idxs = {'n': None, 'e': None}
    pts = []
    body = bytes((i * 37 + 11) & 255 for i in range(1 << 16))
    for first in list(range(0, 256, 1)):
        for extra in (0, 1, 2, 64, 128, 300):
            pts.append(bytes([first]) + body[:max(0, first - 1 + extra)])
    for hi in (0, 1, 2):
        for lo in (0, 1, 3, 128, 255):
            for extra in (0, 1, 64, 128):
                pts.append(bytes([0, hi, lo]) + body[:hi * 256 + lo + extra])
    for hi in (3, 4, 8, 16, 32, 64, 127, 128, 129, 192, 250):
        for lo in (0, 3):
            pts.append(bytes([0, hi, lo]) + body[:hi * 256 + lo + 128])
    n = 0
    for b in pts:
        want = spec_rsa(b)
        got = []
        try:
            for st, v in r.rets:
                h = facts_at(st.facts, {p: b, seqlen(p): len(b)})
                if h is None:
                    return rep.unknown('rsa', 'guards not in closed form: %s' % str(st.facts)[:200], w)
                if h:
                    if is_err(v):
                        got.append(None)
                    elif is_ok(v) and pay(v).op == 'agg' and len(pay(v).a[2]) == 2:
                        fl = [x[0] for x in P_fields(r, pay(v))]
                        d = dict(zip(fl, (evalt(x, {p: b, seqlen(p): len(b)}) for x in pay(v).a[2])))
                        got.append((bytes(d['e']), bytes(d['n'])))
                    else:
                        return rep.unknown('rsa', show(v)[:200], w)
        except (NoVal, KeyError) as e:
            return rep.unknown('rsa', 'result not in closed form: %s' % e, w)
        if len(set(got)) != 1:
            return rep.unknown('rsa', '%d outcomes for %s' % (len(set(got)), b[:6].hex()), w)
        n += 1
        if got[0] == want:
            continue
        if got[0] is None and want is not None and (len(want[0]) < 1 or len(want[1]) < 64 or len(want[0]) > 5):
            continue                      # refusing an unusably short key, or an exponent no verifier takes, is no wrong reading
        if want is None or got[0] is not None and len(want[0]) < 1:
            if want is None:
                return rep.bad('rsa', 'a malformed key starting %s (length %d) is split into exponent %d and modulus %d bytes' % (b[:4].hex(), len(b), len(got[0][0]), len(got[0][1])), w)
            continue
        return rep.bad('rsa', 'the key starting %s (length %d) is %s, not exponent %d / modulus %d bytes' % (
            b[:4].hex(), len(b), 'refused' if got[0] is None else 'read as exponent %d / modulus %d bytes' % (len(got[0][0]), len(got[0][1])), len(want[0]), len(want[1])), w)
    rep.good('rsa', 'closed form agrees with RFC 3110 at %d keys covering all first bytes and length classes' % n, w)


def P_fields(r, v):
    a = r.P.adt.get(v.a[0])
    if a is None:
        return [('n',), ('e',)]
    return a['v'][v.a[1]]['f']


HASH = {2: 'sha256', 1: 'sha1', 4: 'sha384'}


def digests(rep, r):
    w, n = r.f['span'], 0
    D = r.p(1)
    for st, v in r.rets:
        if is_err(v):
            continue
        for c in st.facts:
            for t, q in c.d.items():
                if t.op != 'vsig' or q.single() != 0:
                    continue
                ad = admissions(r, t.a[1])
                if ad is None:
                    rep.unknown('digest', 'keys trusted for the DNSKEY set: %s' % show(t.a[1])[:160], w)
                    continue
                for item, d in ad:
                    n += 1
                    one(rep, r, item, d, D, w)
    rep.floor('ways a key is authenticated', n, 1, hard=False)
    # keys are reached with both digest types
    return n


def digest_facts(d):
    """(hash name, message, ds) of every known digest equality."""
    out = []
    for t, q in d.items():
        if t.op == 'eq' and q.single() == 1:
            for a, b in (t.a, t.a[::-1]):
                if a.op == 'hash' and b.op == 'fld' and b.a[1] == 'digest':
                    out.append((a.a[0], a.a[1], b.a[0]))
    return out


def one(rep, r, item, d, D, w):
    hs = digest_facts(d)
    if not hs:
        rep.unknown('digest', 'admitted under %s' % str({show(k)[:80]: v for k, v in d.items()})[:300], w)    # judged by C04
        return
    for h, msg, ds in hs:
        ty = dset(d, mk('fld', ds, 'digest_type'))
        hn = h if isinstance(h, str) else show(h)
        for v in range(256):
            if not ty.has(v):
                continue
            if v not in (1, 2):
                if v == 4 and hn == 'sha384':
                    continue
                rep.bad('digest:type', 'a DS of digest type %d authenticates a key (with %s)' % (v, hn), w)
                break
            if HASH[v] != hn:
                rep.bad('digest:%d' % v, 'digest type %d is compared with %s' % (v, hn), w)
            else:
                rep.good('digest:%d' % v, 'digest type %d is compared with %s' % (v, hn), w)
            if v == 1:
                rep.judge('downgrade', no_better(r, d, D, ds), 'SHA-1 only when no DS of the set has type 2 or 4', w)


def no_better(r, d, D, ds):
    """The facts exclude any DS of type 2 or 4 in the set."""
    covered, vague = set(), False
    for t, q in d.items():
        if t.op == 'exists' and q.single() == 0:
            alts = [dict(a) for a in t.a[1]]
            if t.a[0].op not in ('over', 'opaqueit') or t.a[0].a[0] is not D:
                vague = True
                continue
            for v in (2, 4):
                for a in alts:
                    try:
                        if all(z.has(evalt(k, {x: v for x in subterms(k) if x.op == 'fld' and x.a[1] == 'digest_type'})) for k, z in a.items()):
                            covered.add(v)
                    except NoVal:
                        # a further condition: the entry excluded is not any entry of that type
                        vague = vague or any(x in r.I.phis for k in a for x in subterms(k)) or any(r.imprecise(k) is not None for k in a)
        elif any(x in r.I.phis for x in subterms(t)) and t.op not in ('done',):
            vague = True
        elif t.op == 'done' and t.a[0].op in ('seqit', 'opaqueit') and t.a[0].a[0] is D:
            vague = vague or not any(u.op == 'exists' and q2.single() == 0 for u, q2 in d.items())
    if covered >= {2, 4}:
        return True
    return None if vague else False

