"""Proof building is bounded and completes only when complete.

The effect of ProofBuilder::{new, process_response, awaiting_responses, finish_proof} on the two counters is
derived as an exact transfer relation: every query pushed to the returned list must be matched by one increment
of each counter on the same path (compared loop iteration by loop iteration), an accepted response decrements
the pending counter by exactly one before that, a refused one changes neither, success needs a pending query,
a proof is returned only with no query pending and at most ten made, and queries are handed out (the list
returned) only while at most ten have been made.
"""
RULE = 'transfer relation of the query counters against the returned query lists'
from base import *

PB = 'query::ProofBuilder'
LIMIT = 10


def check(ctx, rep):
    P = ctx.prog()
    me = mk('param', 'p0')
    pend, made = mk('fld', me, 'pending_queries'), mk('fld', me, 'queries_made')
    adt = adt_path(P, PB)
    if adt is None:
        return rep.bad('anchor', 'ProofBuilder not found')
    if field_index(P, PB, 'pending_queries') is None or field_index(P, PB, 'queries_made') is None:
        return rep.unknown('fields', 'the counters are not fields pending_queries and queries_made')
    for f in rep.need('ProofBuilder::new'):
        r = ctx.run(f)
        for st, v in r.rets:
            if v.op != 'agg' or len(v.a[2]) != 2:
                rep.unknown('new', show(v)[:100], f['span'])
                continue
            b, q = v.a[2]
            c = [getf(P, b, PB, n) for n in ('pending_queries', 'queries_made')]
            if q.op == 'agg' and b.op != 'agg':
                continue
            rep.judge('new', c == [num(1), num(1)], 'counters start at %s, one query handed out' % [show(x) for x in c], f['span'])
    for f in rep.need('ProofBuilder::awaiting_responses'):
        r = ctx.run(f)
        for st, v in r.rets:
            # true only if something is pending and the limit is kept
            for s2 in [st.assume(v, iset(1))]:
                if s2 is None:
                    continue
                p_, m_ = vset(s2.facts, pend), vset(s2.facts, made)
                rep.judge('awaiting', not p_.has(0), 'awaits only with %r pending' % p_, f['span'])
                m_ = iinter(m_, irange(0, None))
                rep.judge('awaiting:limit', isubset(m_, irange(0, LIMIT)), 'awaits responses with %r queries made, of which the last were never handed out' % m_ if not isubset(m_, irange(0, LIMIT)) else 'awaits within the limit', f['span'])
            s3 = st.assume(v, iset(0))
            if s3 is not None:
                over(rep, 'awaiting:all', s3.facts, pend, made, False, 'no response is awaited', f['span'])
    for f in rep.need('ProofBuilder::finish_proof'):
        r = ctx.run(f)
        n = 0
        for st, v in r.rets:
            if is_err(v):
                over(rep, 'finish:all', st.facts, pend, made, True, 'the proof is withheld', f['span'])
                continue
            n += 1
            for c in st.facts:
                p_, m_ = F.cset(c, pend), F.cset(c, made)
                rep.judge('finish:pending', isubset(iinter(p_, irange(0, None)), iset(0)), 'a proof is handed out with pending queries in %r' % p_, f['span'])
                rep.judge('finish:limit', isubset(iinter(m_, irange(0, None)), irange(0, LIMIT)), 'a proof is handed out with %r queries made' % m_, f['span'])
            pr = pay(v)
            if pr.op == 'agg':
                rep.judge('finish:proof', pr.a[2][0] is mk('fld', me, 'proof'), 'the proof handed out is the builder\'s', f['span'])
        rep.floor('proof results', n, 1)
    for f in rep.need('ProofBuilder::process_response'):
        process(ctx, rep, f, P, pend, made)


def over(rep, key, facts, pend, made, done, what, w):
    """Each way of refusing has a reason: queries still pending (or, when waiting, none), or more than ten made."""
    for c in facts:
        p_, m_ = iinter(F.cset(c, pend), irange(0, None)), iinter(F.cset(c, made), irange(0, None))
        fine = not p_.has(0) if done else isubset(p_, iset(0))
        if fine or iinter(m_, irange(0, LIMIT)).empty():
            rep.good(key, '%s only for a reason' % what, w)
        elif all(t in (pend, made) or t.op == 'fld' and t.a[0] is pend.a[0] and t.a[1] == 'min_ttl' and not iinter(q, irange(0, 2**32 - 1)).empty() for t, q in c.d.items()):
            rep.bad(key, '%s with %r pending and %r made' % (what, p_, m_) + ''.join(' and %s in %r' % (t.a[1], q) for t, q in c.d.items() if t.op == 'fld' and t.a[1] == 'min_ttl'), w)
        else:
            rep.unknown(key, '%s when %s' % (what, str(c)[:160]), w)


def count_pushes(t, stop):
    """Number of items t adds to sequence `stop`, or None."""
    n = 0
    while t is not stop:
        if t.op == 'push':
            n += 1
            t = t.a[0]
        elif t.op == 'ext' and elems(t.a[1]) is not None:
            n += len(elems(t.a[1]))
            t = t.a[0]
        elif t is NIL and stop is None:
            return n
        else:
            return None
        if stop is None and t is NIL:
            return n
    return n


def process(ctx, rep, f, P, pend, made):
    r = ctx.run(f)
    w = f['span']
    if not r.ok:
        return rep.unknown('process', r.why, w)
    for st, v in r.rets:
        o = r.out(st, 0)
        p2, m2 = getf(P, o, PB, 'pending_queries'), getf(P, o, PB, 'queries_made')
        if is_err(v):
            for nm, x, y in (('pending', p2, pend), ('made', m2, made)):
                if x is y:
                    rep.good('refused:' + nm, 'unchanged by a refused response', w)
                elif r.imprecise(x):
                    rep.unknown('refused:' + nm, show(x)[:100], w)
                else:
                    rep.bad('refused:' + nm, 'a refused response leaves it at %s' % show(x)[:200], w)
            continue
        # success
        for c in st.facts:
            s = F.cset(c, pend)
            rep.judge('accepted:needs-pending', not s.has(0), 'a response is accepted with %r pending' % iinter(s, irange(0, 1 << 64)), w)
        ret = pay(v) if is_ok(v) else v
        ctr(rep, r, P, p2, pend, -1, 'pending', w)
        ctr(rep, r, P, m2, made, 0, 'made', w)
        within = lambda c: isubset(iinter(F.cset(c, m2), irange(0, None)), irange(0, LIMIT)) or le_implied(c, m2, num(LIMIT))
        beyond = lambda c: iinter(F.cset(c, m2), irange(0, LIMIT)).empty() or le_implied(c, num(LIMIT + 1), m2)
        other = m2 not in r.I.phis and m2 is not made
        if ret is NIL and not r.imprecise(m2) and m2 is not made:
            m_ = [iinter(F.cset(c, m2), irange(0, LIMIT)) for c in st.facts]
            if all(beyond(c) for c in st.facts):
                rep.good('handed-out', 'queries are kept back only beyond the limit', w)
            elif any(not z.empty() and m2 in c.d for z, c in zip(m_, st.facts)):
                rep.bad('handed-out', 'queries counted as pending are not handed out with %s made' % [z for z in m_ if not z.empty()][:1], w)
            else:
                rep.unknown('handed-out', 'with %s made' % m_[:1], w)
        # a non-empty list is returned only within the limit
        if ret is not NIL and elems(ret) != []:
            ok_ = all(within(c) for c in st.facts)
            if ok_:
                rep.good('limit', 'queries are handed out with at most %d made' % LIMIT, w)
            elif r.imprecise(m2) or r.imprecise(ret) or other and any(touches(c, m2) for c in st.facts):
                rep.unknown('limit', 'not derived', w)
            else:
                rep.bad('limit', 'queries are handed out with %s made' % ['%r' % F.cset(c, m2) for c in st.facts][:2], w)
            sync(rep, r, ret, p2, m2, w)


def touches(c, m2):
    return any(set(lin_parts(m2)[1]) & set(subterms(t)) and t.op in ('le0', 'eq0', 'lin') for t in c.d)


def query_lists(r):
    return [q for q in r.I.phis if any(v.op == 'push' and v.a[1].op == 'query' for v, _ in r.I.phis[q])
            and all(v is NIL or v is q or count_pushes(v, q) is not None for v, _ in r.I.phis[q])]


def ctr(rep, r, P, x, x0, delta, nm, w):
    """Initial offset of a counter: its value before any query is added."""
    if r.imprecise(x):
        return rep.unknown('start:' + nm, show(x)[:100], w)
    bases, seen = set(), set()

    def go(t):
        c, p = lin_parts(t)
        ph = [a for a in p if a in r.I.phis]
        cr = [a for a in p if a.op == 'fld' and a.a[0] in r.I.phis]
        if len(p) == len(cr) == 1 and p[cr[0]] == 1:
            # the builder itself is carried by a loop
            a, = cr
            if (a, c) in seen:
                return
            seen.add((a, c))
            for v, _ in r.I.phis[a.a[0]]:
                if v is not a.a[0]:
                    y = getf(P, v, PB, a.a[1])
                    if y is a:
                        continue
                    if a in subterms(y) or a.a[0] in subterms(y):
                        bases.add(None)
                    else:
                        go(add(y, num(c)))
            return
        if len(ph) == 1 and p[ph[0]] == 1 and len(p) == 1:
            if ph[0] in seen:
                return
            seen.add(ph[0])
            for v, _ in r.I.phis[ph[0]]:
                c2, p2 = lin_parts(v)
                if ph[0] in p2:
                    continue
                go(v)
            if c != 0:
                bases.add(None)
        else:
            bases.add(t)
    go(x)
    want = add(x0, num(delta))
    if None in bases or any(a.op == 'fld' and a.a[0].op == 'phi' for b in bases if b is not None for a in lin_parts(b)[1]):
        rep.unknown('start:' + nm, 'adjusted outside the loop: %s' % show(x)[:200], w)
        return
    bases = {b for b in bases if b is not want and not any(b is add(want, seqlen(q)) for q in query_lists(r))} or {want}
    rep.judge('start:' + nm, bases == {want}, 'an accepted response changes %s to %s before counting new queries' % (nm, ', '.join(show(b) for b in bases)), w)


def sync(rep, r, ret, p2, m2, w):
    """Each loop round adds as many queries as it adds to both counters."""
    ph = [t for t in (ret, p2, m2) if t in r.I.phis]
    if ret in query_lists(r) and all(lin_parts(t)[1].get(seqlen(ret)) == 1 for t in (p2, m2)):
        return rep.good('sync', 'as many queries are counted as the list holds', w)
    if len(ph) != 3:
        if all(t not in r.I.phis for t in (p2, m2)) and ret.op in ('comp', 'collect'):
            return rep.unknown('sync', 'list built by an adaptor', w)
        return rep.unknown('sync', 'queries %s, pending %s, made %s' % (show(ret)[:80], show(p2)[:80], show(m2)[:80]), w)
    A, B, C = (r.I.phis[t] for t in ph)
    if not len(A) == len(B) == len(C):
        return rep.unknown('sync', 'different sources', w)
    n = 0
    for (a, fa), (b, fb), (c, fc) in zip(A, B, C):
        if a is NIL or (elems(a) == []):
            continue
        k = count_pushes(a, ret)
        db, dc = sub(b, p2), sub(c, m2)
        if k is None:
            rep.unknown('sync', show(a)[:200], w)
            continue
        n += 1
        rep.judge('sync:pending%d' % k, db is num(k), 'a round that adds %d queries adds %s to the pending count' % (k, show(db)), w)
        rep.judge('sync:made%d' % k, dc is num(k), 'a round that adds %d queries adds %s to the made count' % (k, show(dc)), w)
    rep.floor('rounds', n, 2, hard=False)
