"""An unusable key, DS, signature or denial record is passed over.

Every loop of the validation functions (and of their helpers, run inline) that goes through supplied keys, DS records,
signatures or denial records is examined at its ways out: the states in which it is left other than at the end of its
iterator.  The facts of such a state must not say that the candidate at hand cannot be used (another key tag,
algorithm, protocol or no zone flag; another digest; an unsupported algorithm; not covering the name, opt-out, unknown
hash, too many iterations), since then the candidates behind it would never be looked at.  Adapters that end an
iteration at its first refused item count the same.
"""
RULE = 'facts at every early way out of a candidate loop: none may say that the candidate is unusable'
from vs import *

ENDERS = ('take_while', 'map_while', 'skip_while')


def check(ctx, rep):
    n = 0
    for key in ('verify_rrsig', 'verify_dnskeys'):
        for r in runs_of(ctx, rep, key):
            n += loops(rep, r, key)
            fails(rep, r, key)
    r = stream_run(ctx, rep)
    if r:
        n += loops(rep, r, 'verify_rr_stream')
        fails(rep, r, 'verify_rr_stream')
    rep.floor('ways out of candidate loops', n, 3, hard=False)


def loops(rep, r, key):
    n, w = 0, r.f['span']
    for k in list(r.I.loops):
        blocks = r.I.loops[k][0]
        inner = set()
        for k2, (bl, _) in r.I.loops.items():
            if k2[0] is k[0] and k2[1] != k[1] and k2[1] in blocks and k[1] not in bl:
                inner |= set(bl)

        def here(x):
            """An element drawn by this very loop, of what was supplied."""
            s = site_of(x)
            return s is not None and s.a[0] is k[0] and s.a[1] in blocks and s.a[1] not in inner

        partial(rep, r, k, key, w)
        for kind, states, rets in ways_out(r, k):
            if kind == 'done':
                for s in states:
                    for c in s.facts:
                        for t, q in c.d.items():
                            if t.op == 'done' and q.single() == 1 and t.a[2].op == 'site' and t.a[2].a[0] is k[0] and t.a[2].a[1] in blocks and t.a[2].a[1] not in inner:
                                cut = [o for o in t.a[1] if o in ENDERS]
                                if cut:
                                    rep.bad('ends:' + key, 'the iteration ends at the first item refused by %s' % cut[0], w)
                continue
            room(rep, r, k, key, states, kind, here, w)
            for s in states:
                for c in s.facts:
                    if not any(here(x) for t in c.d for x in subterms(t)):
                        continue
                    n += 1
                    why = unusable(r, c, here, kind, k)
                    if why:
                        rep.bad('%s:%s' % (why[0], key), 'the search %s at %s, and what comes behind it is never looked at' % ('ends' if kind == 'on' else 'fails', why[1]), w)
                    else:
                        rep.good('usable:' + key, 'left only for a candidate that is not known to be unusable', w)
    return n


def partial(rep, r, k, key, w):
    """Candidates left out by their position alone."""
    params = set(getattr(r, 'params', None) or [r.p(i) for i in range(r.f['body']['argc'] if 'argc' in r.f['body'] else 3)])
    states = list(r.I.loops[k][1]) + [s for _, ss, _ in ways_out(r, k) for s in ss]
    for s in states:
        for c in s.facts:
            for t in c.d:
                if t.op == 'kept' and t.a[0] in ('skip', 'take', 'step_by') and t.a[2].op == 'elem':
                    ixs = [x for u in c.d for x in subterms(u) if x.op == 'idx' and x.a[1] is t.a[2]]
                    if any(x.a[0] in params or x.a[0] in r.I.phis for x in ixs):
                        rep.bad('position:' + key, 'candidates are left out by their position: %s(%s)' % (t.a[0], show(t.a[1])), w)


def room(rep, r, k, key, states, kind, here, w):
    """The loop that hashes the name for the parameters of the NSEC3 records ends early only once two pairs are hashed."""
    ps = [p for p in r.I.phis if p.op == 'phi' and p.a[0] is k[0] and p.a[1] == k[1] and not p.a[4]
          and any(v.op == 'push' and v.a[0].op == 'phi' and v.a[0].a[:2] == p.a[:2] and any(x.op == 'fld' and str(x.a[1]).endswith('hash_iterations') for x in subterms(v.a[1])) for v, _ in r.I.phis[p])]
    if not ps and kind == 'on':
        # the loop is left at the first pair, so that nothing is carried round it
        for s in states:
            for v in s.store.values():
                if v.op == 'push' and v.a[0] is NIL and any(x.op == 'fld' and str(x.a[1]).endswith('hash_iterations') and any(here(y) for y in subterms(x)) for x in subterms(v.a[1])):
                    rep.bad('pairs:' + key, 'the search for NSEC3 parameters to hash ends at the first found', w)
    for s in states:
        for p in ps:
            X = s.store.get(p.a[3])
            if X is None:
                continue
            for c in s.facts:
                if not any(here(x) for t in c.d for x in subterms(t)):
                    continue
                if le_implied(c, num(2), seqlen(X)):
                    rep.good('pairs:' + key, 'the hashing ends early only at two pairs', w)
                elif X.op == 'phi' or X.op == 'push' and X.a[0].op == 'phi':
                    L = X if X.op == 'phi' else X.a[0]
                    q = F.cset(c, seqlen(L))
                    lo = (q.lo() or 0) + (X.op == 'push') if not q.empty() else 2
                    other = any(t.op not in ('len', 'exists', 'le0', 'eq', 'eq0') and any(x is L for x in subterms(t)) for t in c.d)
                    rep.judge('pairs:' + key, True if lo >= 2 else None if other else False, 'the search for NSEC3 parameters to hash ends with %d found' % lo, w)


def site_of(x):
    s = x.a[1] if x.op in ('elem', 'itelem') and len(x.a) > 1 else None
    if s is not None and s.op == 'elem':
        s = s.a[1]
    return s if s is not None and s.op == 'site' else None


def fails(rep, r, key):
    """A failing return whose path facts say that a candidate is unusable, its search not being at its end."""
    w = r.f['span']
    for st, v in r.rets:
        if not is_err(v):
            continue
        for c in st.facts:
            over = {(t.a[2].a[0], t.a[2].a[1]) for t, q in c.d.items() if t.op == 'done' and q.single() == 1 and t.a[2].op == 'site'}

            def here(x):
                s = site_of(x)
                return s is not None and (s.a[0], s.a[1]) not in over
            why = unusable(r, c, here, 'err')
            if why:
                rep.bad('%s:%s' % (why[0], key), 'the function fails at %s, and what comes behind it is never looked at' % why[1], w)


def unusable(r, c, here, kind, head=None):
    """Why the facts say that the candidate cannot be used: (kind, text), or None."""
    def of(t):
        return any(here(x) for x in subterms(t))
    # a signature that verified, a digest that matched, or a name that is covered makes it a usable one
    pos = lambda t, q: (t.op == 'vsig' and q.single() == VE_OK)
    if any(pos(t, q) for t, q in c.d.items()):
        return None
    for t, q in c.d.items():
        if not of(t):
            continue
        if t.op == 'fld' and t.a[1] == 'protocol' and not q.has(3):
            return 'key', 'a key of another protocol'
        if t.op == 'and' and q.single() == 0 and any(x.op == 'fld' and x.a[1] == 'flags' and of(x) for x in t.a) and any(x is num(256) for x in t.a):
            return 'key', 'a key without the zone flag'
        if t.op == 'eq0' and q.single() == 0:
            fs = {x.a[1] for x in subterms(t) if x.op == 'fld' and x.a[1] in ('alg', 'key_tag', 'digest_type')} | {'key_tag' for x in subterms(t) if x.op == 'keytag'}
            if len(fs) == 1 and other_side(t, here):
                f = fs.pop()
                return 'match', 'a candidate of another %s' % {'alg': 'algorithm', 'key_tag': 'key tag', 'digest_type': 'digest type'}[f]
        if t.op == 'eq' and q.single() == 0 and any(x.op == 'hash' for x in t.a) and any(x.op == 'fld' and x.a[1] == 'digest' for x in t.a):
            return 'digest', 'a DS of another digest'
        if t.op == 'fld' and t.a[1] == 'digest_type' and not (q.has(1) or q.has(2) or q.has(4)):
            return 'digest', 'a DS of an unsupported digest type'
        if t.op == 'vsig' and not q.has(VE_OK) and not q.has(VE_INVALID):
            return 'sig', 'a signature of an unsupported algorithm'
        p = t.a[1] if t.op == 'fld' else None
        if p == 'NSec3.0.flags' or (p == 'flags' and is3(t)):
            if not q.has(0):
                return 'nsec3', 'an opt-out NSEC3 record'
        if p in ('NSec3.0.hash_algo', 'hash_algo') and not q.has(1):
            return 'nsec3', 'an NSEC3 record of another hash'
        if p in ('NSec3.0.hash_iterations', 'hash_iterations') and not q.empty() and q.lo() > 2500:
            return 'nsec3', 'an NSEC3 record with too many iterations'
        if t.op == 'exists' and q.single() == 0 and any(x.op == 'fld' and str(x.a[1]).endswith(('hash_iterations', 'salt')) and of(x) for x in exterms(t)) \
                and not (head is not None and t.a[0].op == 'over' and t.a[0].a[0].op == 'phi' and t.a[0].a[0].a[1] == head[1]):
            return 'nsec3', 'an NSEC3 record for whose parameters no hash was made'
        if t.op == 'discr' and t.a[0].op in ('b32', 'b32dec') and q.single() == 1:
            return 'nsec3', 'an NSEC3 record without a proper hash'
        if t.op == 'len' and not q.has(20) and any(x.op == 'b32dec' or (x.op == 'fld' and str(x.a[1]).endswith('next_name_hash')) for x in subterms(t)):
            return 'nsec3', 'an NSEC3 record whose hash is not 20 bytes'
        if t.op == 'lexlt' and q.single() == 0 and any(x.op == 'b32dec' or (x.op == 'fld' and str(x.a[1]).endswith('next_name_hash')) for x in subterms(t)):
            return 'nsec3', 'an NSEC3 record that does not cover the name'
        if t.op == 'discr' and t.a[0].op == 'nsecord' and q.single() is not None:
            a, b = t.a[0].a[0], t.a[0].a[1]
            sgn = q.single() if of(b) and not of(a) else -q.single() if of(a) and not of(b) else None
            rec = b if of(b) else a
            if sgn is not None:
                nxt = any(x.op == 'fld' and str(x.a[1]).endswith('next_name') for x in subterms(rec))
                # how the looked-for name compares with the record's name
                if (nxt and sgn >= 0) or (not nxt and sgn <= 0):
                    return 'nsec', 'an NSEC record that does not cover the name'
    # a DS compared with a key: the search for a match may end only at a match
    cmpd = [t for t, q in c.d.items() if of(t) and t.op == 'eq0' and q.single() == 1 and other_side(t, here) and any(x.op == 'keytag' for x in subterms(t))
            and not any(x.op == 'fld' and x.a[1] == 'key_tag' and not of(x) for x in subterms(t))]
    if kind == 'on' and cmpd and any(t.op == 'fld' and t.a[1] == 'digest_type' and of(t) for t in c.d):
        if not any(t.op == 'eq' and q.single() == 1 and any(x.op == 'hash' for x in subterms(t)) for t, q in c.d.items()):
            return 'digest', 'a DS whose digest was not found equal'
    return None


def exterms(t):
    for d in t.a[1]:
        for a, _ in d:
            yield from subterms(a)


def other_side(t, here):
    """The compared term has something of this loop's candidate and something else's."""
    ks = [x for x in subterms(t) if x.op in ('keytag',) or (x.op == 'fld' and x.a[1] in ('alg', 'key_tag', 'digest_type'))]
    mine = [x for x in ks if any(here(y) for y in subterms(x))]
    return bool(mine) and len(ks) > len(mine)


def is3(t):
    return any(x.op == 'fld' and 'NSec3' in str(x.a[1]) for x in subterms(t))
