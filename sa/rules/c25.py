"""A proof holds every relevant record and asks for every signer's keys.

The parse loops of ProofBuilder::process_response are summarised as recurrences over the response's sections.
Round by round the rule checks which records are appended to the proof (every answer; of the authority section
exactly NSEC, NSEC3 and the RRSIGs over them; nothing of the additional section), that every appended RRSIG's
signer is recorded, and that for each recorded signer not yet asked for a DNSKEY query, and unless it is the
root a DS query, is produced and the signer is marked as asked for.
"""
RULE = 'round-by-round comparison of the record-selection and query-generation recurrences with the required sets'
from vs import *
from points import Points

PB = 'query::ProofBuilder'


def section(fs):
    """Which section a loop round runs over: the count word that bounds its index."""
    out = set()
    for c in fs:
        found = set()
        for t, s in c.d.items():
            if t.op == 'le0' and s == iset(0):
                _, p = lin_parts(t.a[0])
                if any(a.op == 'elem' and co == -1 for a, co in p.items()):
                    for a, co in p.items():
                        if co == 1:
                            found |= {SECTION.get(y.a[1].a[1].a[0]) for y in subterms(a) if count_word(y)}
        out.add(found.pop() if len(found) == 1 else None)
    return out.pop() if len(out) == 1 else None


SECTION = {4: 'question', 6: 'answer', 8: 'authority', 10: 'additional'}


def count_word(y):
    return y.op == 'frombe' and y.a[1].op == 'slice' and y.a[1].a[0].op == 'param' and is_num(y.a[1].a[1])


def check(ctx, rep):
    P = ctx.prog()
    rr = adt_path(P, 'rr::RR')
    vn = {i: v['n'] for i, v in enumerate(P.adt[rr]['v'])}
    vi = {v: k for k, v in vn.items()}
    me = mk('param', 'p0')
    for f in rep.need('ProofBuilder::process_response'):
        r = ctx.run(f)
        w = f['span']
        if not r.ok:
            rep.unknown('process', r.why, w)
            continue
        proofs = set()
        for st, v in r.rets:
            if is_err(v):
                continue
            o = r.out(st, 0)
            proof = getf(P, o, PB, 'proof')
            b = r.imprecise(proof)
            if b is not None:
                rep.unknown('proof', show(b)[:100], w)
                continue
            proof = uncopied(r, proof)
            extended(rep, r, P, proof, w)
            bases, adds = growth(r, proof)
            bases = [x for x in bases if x is not NIL]
            opened = any(y in r.I.phis for x in bases for y in subterms(x))
            rep.judge('extends', True if bases == [mk('fld', me, 'proof')] else None if opened else False, 'the proof after a response starts with %s' % [show(x)[:80] for x in bases], w)
            for k, x, fs in adds:
                ws = [x] if x.op == 'wrr' else [y for y in flat(x)]
                for y in ws:
                    if y.op == 'wrr' and y.a[0].op == 'prr_rr' and y.a[1].op == 'prr_ttl' and y.a[0].a == y.a[1].a:
                        rep.good('item', 'appends parsed records with their TTL', w)
                    elif y.op == 'comp' or r.imprecise(y):
                        rep.unknown('item', show(y)[:200], w)
                    else:
                        rep.bad('item', 'appends %s, which is not a parsed record with its own TTL' % show(y)[:200], w)
        layout(rep, r, w)
        rounds(rep, r, vn, vi, w)
        queries(rep, r, P, w)


def whole(rep, r, x, sec, w):
    """The loop over a section is left only when the section has been read to its end or the response is refused."""
    e = early(r, x)
    rep.judge(sec + ':to-the-end', None if e is None else not e, 'the records of the %s section are read until there are no more%s' % (
        sec, '' if not e else '; here the loop also ends with ' + tell([c for s in e for c in s.facts])), w)
    for st, v in r.rets:
        for c in st.facts if not is_err(v) else ():
            for t, q in c.d.items():
                if t.op != 'done' or q.single() != 1 or t.a[1] or t.a[0].op != 'range':
                    continue
                ws = {y for z in t.a[0].a for y in subterms(z) if hasattr(z, 'op') and count_word(y)}
                if len(ws) != 1:
                    continue
                k = ws.pop()
                if SECTION.get(k.a[1].a[1].a[0]) != sec:
                    continue
                try:
                    bad = next((n for n in (1, 2, 7, 63, 64, 65, 255, 256, 1000, 65535) if F.cset(c, k).has(n) and evalt(t.a[0].a[1], {k: n}) - evalt(t.a[0].a[0], {k: n}) != n), None)
                    rep.judge(sec + ':count', bad is None, 'as many records as the header says' if bad is None else 'of %d records in the %s section %d are read' % (bad, sec, evalt(t.a[0].a[1], {k: bad}) - evalt(t.a[0].a[0], {k: bad})), w)
                except NoVal:
                    pass


def layout(rep, r, w):
    """Where the records are taken from: right after the 12-byte header and the question, one after the other."""
    pkt = r.p(1)
    phis = r.I.phis
    n = 0

    def steps(x, used, what):
        """Round values of cursor x; the values it starts with."""
        first = []
        for v, fs in phis[x]:
            if past_error(v):
                rep.bad('cursor', 'the %s are read on after one that could not be read' % what, w)
            elif v is slice_(x, used, seqlen(x)):
                rep.good('cursor', 'each of the %s is read where the one before ends' % what, w)
            elif x in set(subterms(v)):
                rep.judge('cursor', False if v.op == 'slice' and v.a[0] is x and r.imprecise(v) is None else None, 'the next of the %s is read from %s' % (what, show(v)[:120]), w)
            else:
                first.append(v)
        return first
    cur = {t.a[0] for x in phis for v, _ in phis[x] for y in flat(v) if y.op == 'wrr' and y.a[0].op == 'prr_rr' for t in [y.a[0]]}
    todo, seen = [x for x in cur], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        n += 1
        if x in phis:
            if x in cur:
                todo += steps(x, mk('rrlen_in', x, pkt), 'records')
            else:
                todo += steps(x, add(num(4), mk('namelen_in', x, pkt)), 'questions')
        elif x.op == 'slice' and x.a[0] is pkt and is_num(x.a[1]):
            rep.judge('start', x.a[1].a[0] == 12 and x.a[2] is seqlen(pkt), 'the question is read from byte %s' % show(x.a[1]), w)
        elif x.op == 'slice' and x.a[1] is add(num(4), mk('namelen_in', x.a[0], pkt)):
            todo.append(x.a[0])
        elif past_error(x):
            rep.bad('cursor', 'records are read although something before them could not be read', w)
        else:
            rep.unknown('cursor', 'records read from %s' % show(x)[:160], w)
    rep.floor('cursors', n, 1, hard=False)


def own(x, t):
    """t extends loop value x."""
    while t is not x:
        if t.op in ('ext', 'push'):
            t = t.a[0]
        elif t.op == 'ite':
            return own(x, t.a[1]) and own(x, t.a[2])
        else:
            return False
    return True


def pushed(x, t):
    out = []
    while t is not x:
        if t.op == 'push':
            out.append(t.a[1])
        elif t.op == 'ext':
            e = elems(t.a[1])
            out.extend(reversed(e) if e is not None else [t.a[1]])
        elif t.op == 'ite':
            return None
        else:
            break
        t = t.a[0]
    return out[::-1]


def rounds(rep, r, vn, vi, w):
    phis = r.I.phis
    pph = [x for x in phis if any(own(x, v) and v is not x and any(y.op == 'wrr' for y in flat(v)) for v, _ in phis[x])]
    names = [x for x in phis if any(v is not x and own(x, v) and v.op == 'push' and 'key_name' in show(v.a[1])[-12:] for v, _ in phis[x])]
    secs = set()
    for x in pph:
        mates = [n for n in names if n.a[:3] == x.a[:3] and len(phis[n]) == len(phis[x])]
        for k, (v, fs) in enumerate(phis[x]):
            if not own(x, v):
                continue
            sec = section(fs)
            if sec is None:
                rep.unknown('section', 'loop of %s not tied to a section count' % show(x), w)
                continue
            if sec not in secs:
                whole(rep, r, x, sec, w)
            secs.add(sec)
            recs = [y for y in flat(v)[1:]] if v is not x else []
            if sec == 'answer':
                if v is x:
                    rep.bad('answer:all', 'an answer record is parsed but not appended in a round with %s' % tell(fs), w)
                    continue
                rep.judge('answer:once', len(recs) == 1, 'each answer is appended once', w)
            elif sec == 'authority':
                for c in fs:
                    vs, tys, sig = which(c, vi)
                    if vs is None:
                        rep.unknown('authority', 'selection not decided: %s' % str(c)[-200:], w)
                        continue
                    if v is x:
                        lost = [n for n in ('NSec', 'NSec3') if vs.has(vi[n])]
                        if vs.has(vi['RRSig']) and (tys is None or tys.has(47) or tys.has(50)):
                            lost.append('RRSIG over types %s' % ('any' if tys is None else [t for t in (47, 50) if tys.has(t)]))
                        rep.judge('authority:kept', not lost, 'authority records left out: %s' % (lost or 'none that matter'), w)
                    else:
                        extra = [n for i, n in vn.items() if vs.has(i) and n not in ('NSec', 'NSec3', 'RRSig')]
                        if vs.has(vi['RRSig']) and (tys is None or not isubset(iinter(tys, irange(0, 65535)), iset(47, 50))):
                            extra.append('RRSIG over types %r' % (tys,))
                        rep.judge('authority:only', not extra, 'authority records taken: %s' % (extra or 'NSEC, NSEC3 and their RRSIGs'), w)
                        rep.judge('authority:once', len(recs) == 1, 'each is appended once', w)
            else:
                if v is not x:
                    rep.bad('section:' + sec, 'records of the %s section are appended' % sec, w)
            # signers
            if v is not x:
                for y in recs:
                    if y.op != 'wrr':
                        continue
                    rec = y.a[0]
                    want = mk('fld', mk('fld', rec, 'RRSig.0'), 'key_name')
                    if not mates:
                        rep.unknown('signer', 'no signer list at the loop of %s' % show(x), w)
                        continue
                    ok_ = False
                    ps = []
                    for n in mates:
                        q = pushed(n, phis[n][k][0])
                        ps += q or []
                        if q and want in q:
                            ok_ = True
                    vs = vset(fs, mk('discr', rec))
                    if ok_:
                        rep.good('signer:' + sec, 'the signer of an appended RRSIG is recorded', w)
                    elif vs.has(vi['RRSig']):
                        rep.bad('signer:' + sec, 'an RRSIG of the %s section is appended in a round that records %s as signer' % (sec, [show(p)[:80] for p in ps] or 'nothing'), w)
                    for p in ps:
                        if p is not want:
                            rep.judge('signer-other', None, 'also records %s' % show(p)[:100], w)
    rep.floor('answer loops', int('answer' in secs), 1, hard=False)
    rep.floor('authority loops', int('authority' in secs), 1, hard=False)


def tell(fs):
    return '; '.join(str(c)[-160:] for c in fs[:1])


def which(c, vi):
    """(possible variants, possible covered types, record) of the record of a round."""
    for t, s in c.d.items():
        if t.op == 'discr' and t.a[0].op == 'prr_rr':
            rec = t.a[0]
            ty = mk('fld', mk('fld', rec, 'RRSig.0'), 'ty')
            return s, c.d.get(ty), rec
    # no test on the record at all: every variant is possible
    if any(t.op == 'discr' and t.a[0].op == 'prr' for t in c.d):
        return irange(0, 11), None, None
    return None, None, None


def everything(r):
    for st, v in r.rets:
        yield v
    for inc in r.I.phis.values():
        for v, _ in inc:
            yield v


def allfacts(r):
    for st, v in r.rets:
        yield from st.facts
    for inc in r.I.phis.values():
        for _, fs in inc:
            yield from fs or ()


NAMES = [b'.', b'a.', b'ab.', b'com.', b'a.com.', b'ba.com.', b'b.com.', b'example.com.', b'x-example.com.', b'a.example.com.', b'b.a.example.com.', b'example.org.']


def relation(rep, alts, x, phis, w):
    """Any other relation of the name asked for to one asked for before, at sampled pairs of names."""
    cand = {y for d in alts for a, _ in d for y in subterms(a) if y.op == 'idx' and y is not x and y.a[1].op == 'elem' and y.a[0] in phis and y.a[0] is not x.a[0]}
    if len(cand) != 1:
        return
    pr = othername(alts, cand.pop(), x)
    if pr:
        rep.bad('skipped', 'the signer %s is not asked for when %s was' % pr, w)


def merges(r, k):
    """Does dropping repeats by key or relation k only drop equal names?  True, None, or a pair of names it merges."""
    if k.op == 'k':
        return True
    P = Points(r)
    A, B = (mk('sbv', i) for i in range(2))
    N = lambda x, n: {x: n, mk('fld', x, '0'): n, mk('fld', x, 0): n, mk('nlabels', mk('fld', x, '0')): 0 if n == b'.' else n.count(b'.')}

    def val(*xs):
        env = {}
        for t, n in zip((A, B), xs):
            env.update(N(t, n))
        got = {P.value(v, env) for d, v in k.a[0] if P.at([F.Conj(dict(d))], env)}
        if len(got) != 1 or None in [P.at([F.Conj(dict(d))], env) for d, v in k.a[0]]:
            raise NoVal('dedup')
        return got.pop()
    try:
        for p in sorted(NAMES):
            for n in sorted(NAMES):
                if p < n and (val(n, p) if k.op == 'byrel' else val(n) == val(p)):
                    return '%s is taken for a repeat of %s' % (n.decode(), p.decode())
    except (NoVal, KeyError, TypeError):
        return None
    if k.op == 'byrel' and len(k.a[0]) == 1:
        d, v = next(iter(k.a[0]))
        if not d and v in (eq(A, B), eq(mk('fld', A, '0'), mk('fld', B, '0'))):
            return True
    if k.op == 'bykey' and len(k.a[0]) == 1 and next(iter(k.a[0])) in ((frozenset(), A), (frozenset(), mk('fld', A, '0'))):
        return True
    return None


def gone_through(rep, r, nm, nset, w):
    """The sequence the signers are taken from is the recorded ones, but for their order and for repeats."""
    seqs = [x for y in subterms(nm) for x in y.a if y.op in ('elem', 'idx') and hasattr(x, 'op')]
    for x in seqs:
        for y in subterms(x):
            if y.op == 'dedup':
                g = merges(r, y.a[1])
                rep.judge('signers:repeats', False if isinstance(g, str) else g, 'only repeats of a recorded signer are dropped%s' % ('; here ' + g if isinstance(g, str) else ''), w)
    for e in subterms(nm):
        if e.op != 'elem':
            continue
        s = e.a[0]
        if s.op == 'range' and is_num(s.a[1]) and r.imprecise(nm) is None:
            rep.bad('signers:some', 'only the first %d recorded signers are asked for' % s.a[1].a[0], w)
        elif any(y.op == 'slice' and any(z in nset for z in subterms(y.a[0])) and is_num(y.a[1]) and is_num(y.a[2]) for y in subterms(s)):
            rep.bad('signers:some', 'only some of the recorded signers are asked for: %s' % show(s)[:160], w)


def extended(rep, r, P, proof, w):
    """Every way to a response's answer takes in the records read from it."""
    phis = r.I.phis
    new = {x for x in phis if any(own(x, v) and v is not x and any(y.op == 'wrr' for y in flat(v)) for v, _ in phis[x])}
    seen = set()

    def go(x, fs):
        ps = flat(x)
        if any(y in new or y.op == 'wrr' for y in ps):
            return
        for y in ps:
            if y.op == 'ite' and any(z in new for z in flat(y.a[1]) + flat(y.a[2])):
                for b, z in (iset(1), y.a[1]), (iset(0), y.a[2]):
                    go(z, [c2 for c in (fs or [F.Conj({})]) for c2 in F.assume(c, y.a[0], b) or ()])
                return
        if x.op == 'ite':
            go(x.a[1], fs)
            return go(x.a[2], fs)
        if x in phis:
            if x not in seen:
                seen.add(x)
                for v, f in phis[x]:
                    go(v, f)
            return
        if x.op in ('ext', 'push'):
            return rep.unknown('extends:all', show(x)[:120], w)
        for c in fs or ():
            if any(s.single() == 0 and any(y in new for y in subterms(t)) and t.op in ('len', 'seqlen', 'slen') for t, s in c.d.items()):
                rep.good('extends:all', 'nothing is added when nothing was read', w)
            elif all(r.imprecise(t) is None for t in c.d) and not any(t.op != 'done' and any(y in new for y in subterms(t)) for t in c.d):
                rep.bad('extends:all', 'the records read are not added to the proof when %s' % str(c)[-200:], w)
            else:
                rep.unknown('extends:all', str(c)[-160:], w)
    go(proof, None)


def queries(rep, r, P, w):
    phis = r.I.phis
    qs = [x for x in phis if any(own(x, v) and v is not x and v.op == 'push' and v.a[1].op == 'query' for v, _ in phis[x])]
    if not qs:
        if not any(y.op == 'query' for v in everything(r) for y in subterms(v)) and not any(r.imprecise(v) is not None for _, v in r.rets) and not r.unmod():
            return rep.bad('queries', 'no query is ever made for the keys of a signer', w)
        return rep.unknown('queries', 'no query list recurrence', w)
    names = [x for x in phis if any(v is not x and v.op == 'push' and 'key_name' in show(v.a[1])[-12:] for v, _ in phis[x])]
    nset = set(names)
    for q in qs:
        reqs = [x for x in phis if x.a[:3] == q.a[:3] and len(phis[x]) == len(phis[q]) and any(v.op == 'fld' and v.a[1] == 'dnskeys_requested' for v, _ in phis[x])]
        if len(reqs) != 1:
            rep.unknown('requested', 'no list of signers asked for at this loop', w)
            continue
        rq = reqs[0]
        n = 0
        e = early(r, q)
        rep.judge('all-signers', None if e is None else not e, 'the recorded signers are gone through until there are no more', w)
        for (v, fs), (rv, _) in zip(phis[q], phis[rq]):
            if not own(q, v):
                continue
            n += 1
            ps = pushed(q, v)
            asked = pushed(rq, rv)
            if ps is None or asked is None or any(p.op != 'query' for p in ps):
                rep.unknown('round', show(v)[:200], w)
                continue
            el = {p.a[0] for p in ps}
            if not ps:
                done_ = all(any(t.op == 'exists' and s == iset(1) and any(y is rq for y in subterms(t)) or t.op in ('in', 'contains') and any(y is rq for y in subterms(t)) for t, s in c.d.items()) for c in fs)
                for c in fs:
                    for t, z in c.d.items():
                        if t.op == 'exists' and z == iset(1) and t.a[0].op == 'over' and t.a[0].a[0] is rq:
                            for x in {x for d in t.a[1] for a, _ in d for x in subterms(a) if x.op == 'idx' and x.a[0] is rq}:
                                for nm in {o for d in t.a[1] for a, _ in d if a.op == 'eq' and any(o is x for o in a.a) for o in a.a if o is not x}:
                                    pr = othername(t.a[1], nm, x)
                                    if pr:
                                        rep.bad('skipped', 'the signer %s is not asked for when %s was' % pr, w)
                                        break
                                else:
                                    relation(rep, t.a[1], x, phis, w)
                rep.judge('skipped', True if done_ else None if any(r.imprecise(t) for c in fs for t in c.d) else False, 'a signer is skipped only when asked for before%s' % ('' if done_ else '; here: ' + tell(fs)), w)
                continue
            if len(el) != 1:
                rep.bad('same-signer', 'one round asks for %s' % [show(x)[:80] for x in el], w)
                continue
            nm = el.pop()
            base_ok = any(y in nset for y in subterms(nm))
            rep.judge('of-signer', True if base_ok else None, 'the name asked for is a recorded signer: %s' % show(nm)[:100], w)
            if base_ok:
                gone_through(rep, r, nm, nset, w)
            tys = [p.a[1] for p in ps]
            if not all(is_num(t) for t in tys):
                rep.unknown('types', show(v)[:200], w)
                continue
            ts = sorted(t.a[0] for t in tys)
            root = vset(fs, eq(nm, byts(b'.')))
            if root == iset(1):
                rep.judge('root', ts == [48], 'for the root zone types %s are queried' % ts, w)
            elif root == iset(0):
                rep.judge('zone', ts == [43, 48], 'for a zone types %s are queried' % ts, w)
            else:
                if ts == [43, 48] and not any(y is byts(b'.') or y.op in ('nlabels', 'labels') or (y.op == 'len' and any('key_name' in show(z)[-12:] for z in subterms(y))) for c in allfacts(r) for t in c.d for y in subterms(t)):
                    rep.bad('root', 'the root is asked for its DS', w)
                elif ts == [43, 48]:
                    rep.unknown('root', 'the root is asked for its DS', w)
                else:
                    rep.bad('zone', 'types %s are queried for a zone that need not be the root' % ts, w)
            marked = any(any(y is nm for y in subterms(a)) or (nm.op == 'fld' and nm.a[0] is a) or (a.op == 'agg' and a.a[2] and a.a[2][0] is nm) for a in asked)
            new = all(any(t.op == 'exists' and s == iset(0) and any(y is rq for y in subterms(t)) for t, s in c.d.items()) for c in fs)
            rep.judge('marked', marked, 'the signer is marked as asked for', w)
            rep.judge('once', True if new else False if not any(rq in set(subterms(t)) for c in fs for t in c.d) and not sets_like(rq) else None, 'asked for only if not asked before', w)
        rep.floor('query rounds', n, 2, hard=False)


def sets_like(rq):
    return False
