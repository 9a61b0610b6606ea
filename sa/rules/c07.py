"""A wildcard answer needs proof that the closer name does not exist.

Every signature that verified puts (next-closer name, signer) in a list of pending proofs unless the path's facts say
its label count is the owner's, or it is over NSEC; NSEC3 and DS sets are accepted only with the owner's full label
count.  Success needs that list to be empty.  An entry leaves the list only together with equal entries, and only on a
path whose facts are a denial: an NSEC or NSEC3 record out of the set of verified denial records, tied to the entry's
own zone, with start strictly before and end strictly after the name (NSEC: canonical order, and the next name not
below it; NSEC3: the decoded owner hash, the name's hash and the next hash).  The canonical order and the label helpers
are checked on their own bodies.
"""
RULE = 'coinductive cover of verified signatures by the pending-proof list; path facts at every removal from it'
from vs import *
import names
from rules.c01 import signame, vsigs, complete


def check(ctx, rep):
    names.all_helpers(ctx, rep, names.labels, names.tnl, names.write_name, names.nsec_ord, names.in_zone)
    r = stream_run(ctx, rep)
    if r:
        judge(rep, r)


def is_proof_item(x):
    return any(y.op == 'tnl' for y in subterms(x))


def proof_lists(r):
    """Loop lists that (also) take next-closer names."""
    out = set()
    for p, inc in r.I.phis.items():
        if p.op == 'phi' and any(v.op == 'push' and is_proof_item(v.a[1]) for v, _ in inc):
            out.add(p)
    # everything that carries them on
    keys = {(p.a[3], p.a[4]) for p in out}
    return {p for p in r.I.phis if p.op == 'phi' and (p.a[3], p.a[4]) in keys}, keys


def wanted(sig):
    return mk('tnl', signame(sig), add(mk('fld', sig, 'labels'), num(1))), mk('fld', sig, 'key_name')


def counted(c, sig):
    """The facts say the signature counts (at least) all labels of the owner."""
    l, n = mk('fld', sig, 'labels'), mk('nlabels', signame(sig))
    return F.cset(c, eqi(l, n)).single() == 1 or le_implied(c, n, l)


def name_same(a, b):
    f = lambda t: t.a[0] if t.op == 'fld' and t.a[1] == '0' else t
    return f(a) is f(b)


def item_ok(sig, item):
    """The pushed entry names the next closer name and the signer: True/False/None."""
    if item.op != 'agg' or len(item.a[2]) < 2:
        return None
    t, z = wanted(sig)
    xs = item.a[2]
    if not any(name_same(x, t) for x in xs):
        return False if any(y.op == 'tnl' for x in xs for y in subterms(x)) else None
    return any(name_same(x, z) for x in xs) or None


def covered(r, val, sig, c, ty, lists, seen):
    """On a path with facts c and pending-proof list val, the verified signature sig (restricted to types ty) needs no
    proof or has its entry in val: True / False / None."""
    t = mk('fld', sig, 'ty')
    if iinter(F.cset(c, t), ty).empty():
        return True
    if counted(c, sig):
        return True
    if ty == OTHER:
        if isubset(F.cset(c, t), iset(47)):
            return True
        v = val
        while v.op == 'push':
            k = item_ok(sig, v.a[1])
            if k is not None:
                if k:
                    return True
            v = v.a[0]
        val = v
    if val.op in ('sorted', 'dedup'):
        val = val.a[0]
    inc = r.I.phis.get(val)
    if inc is None:
        return None if r.imprecise(val) is not None or val.op in ('ite', 'comp', 'ext') else False
    if val.id in seen:
        return True
    res = True
    for v, fs in inc:
        for c2 in fs or ():
            if not any(x.a[0] is sig for x in vsigs(c2)):
                # from before the signature was checked: nothing there can account for it
                k = True if v in seen_terms(r, seen) else False
            else:
                k = covered(r, v, sig, c2, ty, lists, seen | {val.id})
            if k is False:
                return False
            if k is None:
                res = None
    return res


def seen_terms(r, seen):
    return {p for p in r.I.phis if p.id in seen}


OTHER = irange(0, 65535)


def judge(rep, r):
    w = r.f['span']
    lists, keys = proof_lists(r)
    n = 0
    # 1. every verified signature that needs one has an entry
    done = set()
    for (cx, head), (blocks, states) in r.I.loops.items():
        for s in states:
            for c in s.facts:
                for t in vsigs(c):
                    sig = t.a[0]
                    if not any(x is r.p(0) for x in subterms(sig)):
                        continue
                    for ty, what in ((OTHER, 'pending'), (iset(50), 'nsec3'), (iset(43), 'ds')):
                        vals = [s.store.get(k) for k, p in keys if not p] if ty == OTHER else [next((s.store.get(k) for k, p in keys if not p and s.store.get(k) is not None), NIL)]
                        for val in vals:
                            if val is None:
                                continue
                            if ty != OTHER and not in_sig_loop(r, head, cx, sig):
                                continue
                            if (val, c, sig, what) in done:
                                continue
                            done.add((val, c, sig, what))
                            n += 1
                            k = covered(r, val, sig, c, ty, lists, frozenset())
                            rep.judge('needs:' + what, k, {'pending': 'a verified RRSIG with fewer labels is accepted without a pending proof', 'nsec3': 'a wildcard NSEC3 is accepted', 'ds': 'a wildcard DS is accepted'}[what] if not k else 'every verified RRSIG is covered', w)
    if not keys:
        if any(e.name.endswith('trailing_n_labels') for e in r.evs) or r.unmod():
            rep.unknown('needs', 'no list of pending proofs found', w)
        else:
            anyv = [c for st, v in r.rets if is_ok(v) for c in st.facts if any(t.op == 'tnl' for x in c.d for t in subterms(x))]
            if anyv:
                rep.unknown('needs', 'proofs are not kept in a list', w)
            else:
                rep.bad('needs', 'no wildcard expansion ever asks for a proof', w)
        return
    rep.floor('verified signatures at loop ends', n, 1, hard=False)
    # 2. success only with nothing pending
    for st, v in r.rets:
        if is_err(v):
            continue
        for c in st.facts:
            ok_ = [t for t, q in c.d.items() if t.op == 'len' and t.a[0] in lists and q.single() == 0]
            over_ = [x for x in lists if finished(r, c, x)]
            if ok_:
                rep.good('empty', 'succeeds only with no proof pending', w)
                for t in ok_:
                    removals(rep, r, t.a[0], lists, w)
            elif over_:
                rep.good('empty', 'succeeds only after every pending proof was looked at', w)
                for x in over_:
                    each(rep, r, x, lists, w)
            elif any(x in lists for t in c.d for x in subterms(t)) and left_over(c, lists):
                rep.bad('empty', 'succeeds with proofs still pending, when %s' % str(c)[:200], w)
            elif any(x in lists for t in c.d for x in subterms(t)):
                rep.unknown('empty', 'success depends on the list as %s' % str(c)[:200], w)
            else:
                rep.bad('empty', 'succeeds whatever proofs are pending, when %s' % str(c)[:200], w)


def left_over(c, lists):
    """The facts speak of the list only through its length and single entries, and allow for more entries than one."""
    def plain(t, top=True):
        if t in lists:
            return False
        if t.op == 'len' and t.a[0] in lists:
            return True
        if t.op == 'idx' and t.a[0] in lists:
            return plain(t.a[1])
        if t.op == 'exists':
            return plain(t.a[0]) and all(plain(k) for d in t.a[1] for k, _ in d)
        if t.op in ('done', 'comp'):
            return not any(x in lists for x in subterms(t))
        return all(plain(x) for x in t.a if isinstance(x, T))
    return all(plain(t) for t in c.d) and all(F.cset(c, t).has(2) and F.cset(c, t).has(1000) for t in c.d if t.op == 'len' and t.a[0] in lists)


def in_sig_loop(r, head, cx, sig):
    return any(x.op == 'idx' and x.a[1].op == 'elem' for x in subterms(sig))


def base_list(t):
    while t.op in ('sorted', 'slice', 'rev', 'dedup'):
        t = t.a[0]
    return t


def chain(t):
    while t.op in ('sorted', 'slice', 'rev', 'dedup'):
        yield t
        t = t.a[0]


def finished(r, c, x):
    for t, q in c.d.items():
        if t.op == 'done' and q.single() == 1 and t.a[0].op == 'seqit' and not t.a[1] and base_list(t.a[0].a[0]) is x:
            return True
    return False


def removals(rep, r, L, lists, w):
    n = 0
    for v, fs in r.I.phis.get(L, ()):
        if not any(x is L for x in subterms(v)):
            b = base_list(v)
            if b in lists or b is NIL:
                if any(x.op == 'slice' for x in chain(v)):
                    rep.bad('carried', 'only part of the pending proofs is looked at: %s' % show(v)[:120], w)
                continue
            rep.unknown('carried', 'the list starts as %s' % show(v)[:120], w)
            continue
        n += 1
        P, det = removed(r, L, v)
        if P is None:
            rep.judge('removal', det[0], det[1], w)
            continue
        for c in fs or ():
            k, d = proof(rep, r, c, P, w)
            rep.judge('proof', k, d, w)
    rep.floor('removals of pending proofs', n, 1, hard=False)


def settled(r):
    """(facts, entry) of every way a pending proof is settled."""
    lists, keys = proof_lists(r)
    out = []
    for L in lists:
        for v, fs in r.I.phis.get(L, ()):
            if any(x is L for x in subterms(v)):
                P, _ = removed(r, L, v)
                if P is not None:
                    out.extend((c, P) for c in fs or ())
    return out or iterated(r, lists)


def iterated(r, lists):
    """(facts, element) at the end of each iteration of the outermost loop over a pending-proof list."""
    found = []
    for _, (blocks, states) in r.I.loops.items():
        ps = []
        for s in states:
            for c in s.facts:
                P = {y for t in c.d for y in subterms(t) if y.op == 'idx' and base_list(y.a[0]) in lists and y.a[1].op == 'elem'}
                if len(P) == 1:
                    ps.append((c, P.pop()))
        if ps:
            found.append((set(blocks), ps))
    return [x for b, ps in found if not any(b < b2 for b2, _ in found) for x in ps]


def each(rep, r, X, lists, w):
    """for-loop form: every iteration that ends without an error carries a proof for its element."""
    n = 0
    for c, P in iterated(r, {X}):
        n += 1
        k, d = proof(rep, r, c, P, w)
        rep.judge('proof', k, d, w)
    if not n:
        rep.unknown('proof', 'no iteration over the pending proofs found', w)


def dropped(alts, P, y, en, ez):
    """Names of a proven entry and of another, of the same zone, that none of the alternatives under which entries are kept
    holds for."""
    for A, B in NAMEPAIRS:
        if A != B:
            try:
                if not any(onpair([(t, q) for t, q in d.items() if t is not en and t is not ez and not _inrange(t, y)], P, A, y, B)
                           and all(q.has(0 if t is en else 1) for t, q in d.items() if t is en or t is ez) for d in alts):
                    return A.decode(), B.decode()
            except NoVal:
                return None
    return None


def removed(r, L, v):
    """The entry that leaves L when it becomes v; or None, (verdict, detail)."""
    n = seqlen(L)
    kept = v
    conds = None
    if v is L:
        return None, (True, 'nothing removed')
    if v.op == 'comp':
        m = as_comp(r, v)
        if m is None:
            return None, (None, show(v)[:160])
        kept, conds = m[0], m
        if any(x is not idx(kept, m[2]) for _, x in m[1]):
            return None, (None, show(v)[:160])
    if kept is slice_(L, num(0), sub(n, num(1))):
        P = idx(L, sub(n, num(1)))
    elif kept is slice_(L, num(1), n):
        P = idx(L, num(0))
    elif kept is L:
        P = None
    else:
        return None, (None if kept.op != 'slice' else False, 'the list becomes %s' % show(v)[:160])
    if conds is not None:
        y = idx(kept, conds[2])
        if P is None:
            return None, (None, 'retains %s' % show(v)[:200])
        # dropped: no alternative holds.  Entries equal to P in name and zone only.
        en, ez = eq(fn(P, 0), fn(y, 0)), eq(fn(P, 1), fn(y, 1))
        for a in (0, 1):
            for b in (0, 1):
                if a and b:
                    continue
                keep = False
                for d, _ in conds[1]:
                    okk = True
                    for t, q in d.items():
                        x = a if t is en else b if t is ez else None
                        if x is None and _inrange(t, y):
                            continue
                        if t.op == 'inzone' and {strip1(z) for z in t.a} == {fn(P, 0), fn(y, 0)}:
                            # below each other: certain for equal names, possible or not for others
                            if not (a and q.has(1)) and q.single() is not None:
                                okk = False
                            continue
                        if x is None:
                            z = dropped([dd for dd, _ in conds[1]], fn(P, 0), fn(y, 0), en, ez)
                            if z:
                                return None, (False, 'an entry for %s is dropped along with the proven %s' % (z[1], z[0]))
                            return None, (None, 'keeps entries by %s' % show(t)[:160])
                        if not q.has(x):
                            okk = False
                    keep = keep or okk
                if not keep:
                    return None, (False, 'entries with %s name and %s zone are dropped along with the proven one' % (('another', 'the same')[a], ('another', 'the same')[b]))
    return P, None


def strip1(t):
    return t.a[0] if t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'fld' and t.a[0].a[1] in ('0', '1') else t


def _inrange(t, y):
    return t.op == 'le0' and any(k is y.a[1] for k in lin_parts(t.a[0])[1])


def fn(P, i):
    return mk('fld', P, str(i))


def text(t):
    return t if t.op == 'fld' and t.a[1] == '0' and t.a[0].op in ('rrname',) else mk('fld', t, '0')


def proof(rep, r, c, P, w):
    """The facts prove that P's name does not exist: (verdict, detail)."""
    name, zone = fn(P, 0), fn(P, 1)
    res = []
    # candidate denial records: elements of another list whose NSEC/NSEC3 fields the facts speak about
    cands = {}
    for t in c.d:
        for x in subterms(t):
            if x.op == 'fld' and x.a[1] in ('NSec.0', 'NSec3.0'):
                cands[x] = x.a[1]
    for x, kind in cands.items():
        if not any(t.op not in ('exists',) and any(y is x for y in subterms(t)) for t in c.d):
            continue
        res.append((nsec if kind == 'NSec.0' else nsec3)(rep, r, c, P, x, w))
    good_ = [x for x in res if x[0]]
    if good_:
        return good_[0]
    if not res:
        if any(t.op == 'exists' and q.single() == 1 for t, q in c.d.items()) or not no_phi_guard2(r, c):
            return None, 'a pending proof is settled when %s' % str(c)[:200]
        return False, 'a pending proof is settled without any denial record, when %s' % str(c)[:200]
    und = [x for x in res if x[0] is None]
    if und:
        return und[0]
    return res[0]


def no_phi_guard2(r, c):
    return not any(r.imprecise(t) is not None for t in c.d)


def zone_tie(r, c, P, x):
    """The record x comes from a list of verified denial records and is tied to P's zone: (verdict, detail)."""
    rec = x.a[0]
    zone = fn(P, 1)
    hit = [y for y in subterms(rec) if y.op == 'idx' and y in r_elems(r, y)]
    ent = None
    for y in subterms(rec):
        if y.op == 'idx' and (y.a[0] in r.I.phis or y.a[0].op in ('comp', 'sorted')):
            ent = y
    if ent is None:
        if any(y is r.p(0) for y in subterms(rec)):
            return False, 'any supplied record counts as a denial, verified or not: %s' % show(rec)[:100]
        return None, 'record %s' % show(rec)[:100]
    D = ent.a[0]
    bases, adds = sources(r, D)
    if bases:
        return (False if r.p(0) in bases else None), 'denial records come from %s' % [show(b)[:60] for b in bases]
    if not adds:
        return None, 'no denial records'
    path = 'whole' if rec is ent else None
    ri = None
    if rec is not ent:
        if not (rec.op == 'fld' and rec.a[0] is ent):
            return None, 'record %s' % show(rec)[:100]
        ri = rec.a[1]
    # the zone component
    zi = None
    for t, q in c.d.items():
        if t.op == 'eq' and q.single() == 1:
            for a, b in (t.a, t.a[::-1]):
                a2, b2 = strip0(a), strip0(b)
                if a2 is zone and b2.op == 'fld' and b2.a[0] is ent and b2.a[1] != ri:
                    zi = b2.a[1]
    if zi is None:
        tied = [t for t in c.d if t.op not in ('exists', 'le0') and zone in list(subterms(t)) and any(y is ent for y in subterms(t))]
        if tied:
            # some relation between the record's signer and the zone, but not equality: a pair of zones it lets through
            sg = {y for t in tied for y in subterms(t) if y.op == 'fld' and y.a[0] is ent and y.a[1] != ri}
            wit = None
            if len(sg) == 1 and ri is not None:
                y = sg.pop()
                wit = names.counter(c, [((y, mk('fld', y, '0')), names.ZONES), ((zone, mk('fld', zone, '0')), names.ZONES)], lambda a, b: a != b)
            if not wit:
                return None, 'the zone is compared in another way'
            return False, 'a denial record signed by %s counts for a wildcard of %s' % (wit[0].decode(), wit[1].decode())
        return False, 'the denial record is not tied to the zone that signed the wildcard'
    out = (True, 'denial records of the same signer')
    for item, fs in adds:
        if item.op != 'agg':
            return None, 'denial entry %s' % show(item)[:100]
        xs = item.a[2]
        rec_, zn = xs[int(ri)] if ri is not None and ri.isdigit() and int(ri) < len(xs) else None, xs[int(zi)] if zi.isdigit() and int(zi) < len(xs) else None
        if rec_ is None or zn is None:
            return None, 'denial entry %s' % show(item)[:100]
        for c2 in fs or ():
            vs = vsigs(c2)
            if not vs:
                return False, 'a denial record enters the list unverified: %s' % show(item)[:120]
            okk = False
            for t in vs:
                m = member(r, c2, rec_, t.a[2])
                z = name_same(zn, mk('fld', t.a[0], 'key_name')) or same(c2, mk('fld', zn, '0'), mk('fld', mk('fld', t.a[0], 'key_name'), '0'))
                if m and z:
                    okk = True
                elif m is None and okk is False:
                    okk = None
            if not okk:
                return okk, 'the denial entry %s is not (verified record, its signer)' % show(item)[:160]
    return out


def r_elems(r, y):
    return ()


def strip0(t):
    return t.a[0] if t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'fld' else t


def ordfact(c, a, b):
    """Known order of names a against b: set of -1, 0, 1."""
    s = F.cset(c, mk('discr', mk('nsecord', a, b)))
    x = {v for v in (-1, 0, 1) if s.has(v)}
    s = F.cset(c, mk('discr', mk('nsecord', b, a)))
    return x & {-v for v in (-1, 0, 1) if s.has(v)}


def nsec(rep, r, c, P, x, w):
    rec = x.a[0]
    name = fn(P, 0)
    nt = mk('fld', name, '0')
    own = mk('fld', mk('rrname', rec), '0')
    nxt = mk('fld', mk('fld', x, 'next_name'), '0')
    alts = (nt, name)
    best = None
    for t in alts:
        lo, hi = ordfact(c, own, t), ordfact(c, nxt, t)
        if lo == {-1, 0, 1} and hi == {-1, 0, 1}:
            continue
        best = (t, lo, hi)
    if best is None:
        if any(any(y is x or y is rec for y in subterms(t)) and any(y is name for y in subterms(t)) for t in c.d):
            return None, 'NSEC compared as %s' % str(c)[:200]
        return False, 'an NSEC record settles a proof without being compared with the name'
    t, lo, hi = best
    if lo != {-1}:
        return False, 'an NSEC whose owner is %s the name settles the proof' % ' or '.join({-1: 'before', 0: 'at', 1: 'after'}[v] for v in sorted(lo))
    if hi != {1}:
        return False, 'an NSEC whose next name is %s the name settles the proof' % ' or '.join({-1: 'before', 0: 'at', 1: 'after'}[v] for v in sorted(hi))
    z = F.cset(c, mk('inzone', nxt, t))
    if z.single() != 0:
        if z.single() == 1:
            return False, 'an NSEC counts only if its next name is below the name'
        if any(q.op == 'inzone' for q in c.d) is False and any(any(y is nxt for y in subterms(q)) and q.op != 'discr' for q in c.d):
            wit = names.counter(c, [((nxt,), names.ZONES), ((t,), [z for z in names.ZONES if z != b'.'])], lambda a, b: names.below(a, b))
            if not wit:
                return None, 'next name tested in another way'
            return False, 'an NSEC whose next name %s is below the name %s (so the name exists) settles the proof' % (wit[0].decode(), wit[1].decode())
        return False, 'an NSEC whose next name is below the name (so the name exists) settles the proof'
    return zone_tie(r, c, P, x)


def owner_hash(rec):
    """Text of the NSEC3 owner's first label, as the code may take it."""
    return mk('fld', mk('rrname', rec), '0')


def nsec3(rep, r, c, P, x, w):
    rec = x.a[0]
    own = owner_hash(rec)
    nxt = mk('fld', x, 'next_name_hash')
    lows = [(t, q) for t, q in c.d.items() if t.op == 'lexlt']
    dec = {y for t, _ in lows for y in subterms(t) if y.op == 'b32dec'}
    lo = hi = None
    for t, q in lows:
        a, b = t.a
        if a.op == 'b32dec':
            if q.single() == 1:
                lo = (a, b)
        if b is nxt and q.single() == 1:
            hi = a
    if lo is None or hi is None:
        if not lows:
            if any(any(y is nxt for y in subterms(t)) for t in c.d if t.op not in ('len',)):
                return None, 'hashes compared in another way'
            return False, 'an NSEC3 record settles a proof without its hashes being compared'
        if r.imprecise(lows[0][0]) is not None:
            return None, 'hash comparison not derived'
        if lo is None:
            return False, 'an NSEC3 whose owner hash is not strictly below the name\'s hash settles the proof'
        return False, 'an NSEC3 whose next hash is not strictly above the name\'s hash settles the proof'
    if lo[1] is not hi:
        return None, 'two different hashes are compared: %s, %s' % (show(lo[1])[:80], show(hi)[:80])
    d = lo[0].a[0]
    lab = first_label(d, own)
    if not lab:
        return lab, 'the owner hash is decoded from %s' % show(d)[:120]
    if F.cset(c, mk('discr', mk('b32', d))).single() != 0:
        return None, 'the owner hash may not decode'
    k, det = hash_of(r, c, P, hi)
    if not k:
        return k, det
    return zone_tie(r, c, P, x)


def first_label(d, own):
    if d.op == 'slice' and d.a[0] is own and d.a[1] is num(0) and d.a[2].op == 'posof':
        return True if d.a[2].a[0] in ('split_once', 'find') and d.a[2].a[1] is own else None
    if d.op == 'part' and d.a[0].a[1] is own and d.a[0].a[0] in ('split', 'splitn') and d.a[1] is num(0):
        return True
    if any(x is own for x in subterms(d)):
        return None if d.op in ('slice', 'part', 'lower', 'upper') else None
    return False


def hash_of(r, c, P, h):
    """h is a hash of P's name."""
    hs = name_hashes(r, h)
    if hs is None:
        return None, 'hash %s' % show(h)[:100]
    name = fn(P, 0)
    for ent, x, fs in hs:
        if not any(y is name or y is P for y in all_parts(r, x)):
            return False, 'the hash compared is not of the pending name: %s' % show(x)[:120]
    return True, ''


def all_parts(r, t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        for y in subterms(x):
            out.append(y)
            if y in r.I.phis and y not in seen:
                seen.add(y)
                todo.extend(v for v, _ in r.I.phis[y])
    return out


def name_hashes(r, h):
    """[(list entry, hash value, facts)] a hash term can be: directly a hash, or a component of a list's elements."""
    t = h
    path = []
    while t.op == 'fld':
        path.append(t.a[1])
        t = t.a[0]
    if t.op == 'hash':
        return [(None, t, None)]
    if t.op != 'idx':
        return None
    bases, adds = sources(r, t.a[0])
    if bases or not adds:
        return None
    out = []
    for item, fs in adds:
        v = item
        for p in reversed(path):
            if v.op != 'agg':
                return None
            nm = p.split('.')[-1]
            if '.' in p:
                v = v.a[2][int(nm)] if nm.isdigit() and int(nm) < len(v.a[2]) else None
            else:
                v = v.a[2][int(p)] if p.isdigit() and int(p) < len(v.a[2]) else None
            if v is None:
                return None
        out.append((item, v, fs))
    return out
