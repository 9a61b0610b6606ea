"""Success returns every verified record once and follows every delegation.

verify_rr_stream: a successful return needs facts that put something in the verified list.  A record is appended only
where the facts say that it is not in the list yet; every turn of the loop over a verified set appends its record or
finds it there; that loop and the one over the signatures are left only at their end (or by failing).  Every turn of the
signature loop with a verified signature has gone through the whole of its set, or - for a DS set - put it on the list
of zones to follow or found its owner among the zones seen.  Signatures enter that loop unless they are of another
signer or over DNSKEYs, and a turn without verification says so.  The walk over the zones ends only when no zone is left.
Only NSEC and NSEC3 records are taken out again.
"""
RULE = 'facts at every turn and way out of the loops over zones, signatures and verified records'
import engine
from vs import *
from rules.c01 import signame, vsigs


def check(ctx, rep):
    r = stream_run(ctx, rep)
    if not r:
        return
    P, w, n = r.P, r.f['span'], 0
    lists = set()
    for st, v in r.rets:
        if is_err(v) or not is_ok(v) or pay(v).op != 'agg':
            continue
        V = getf(P, pay(v), 'validation::VerifiedRRStream', 'verified_rrs')
        n += 1
        s = dropped(rep, r, V, w)
        if s is None:
            continue
        for c in st.facts:
            a = some(r, s, c, set())
            if a is False and other_list(r, s):
                a = None
            rep.judge('empty', a, 'succeeds though no record was verified: %s' % str(c)[:160] if a is False else 'success needs a verified record', w)
        lists |= family(r, s)
    rep.floor('successful returns', n, 1)
    once(rep, r, lists, w)
    sigs = sigloops(r)
    rep.floor('signature loops', len(sigs), 1)
    each(rep, r, lists, sigs, w)
    for k in sigs:
        turns(rep, r, k, lists, w)
        entered(rep, r, k, w)
    zones(rep, r, sigs, w)


# ---------------------------------------------------------------- what is returned
def dropped(rep, r, V, w):
    """The list the result is filtered from; only NSEC and NSEC3 records may be filtered out."""
    t = V
    while True:
        if t.op in ('sorted', 'rev'):
            t = t.a[0]
            continue
        if t.op == 'dedup':
            return None
        m = as_comp(r, t) if t.op == 'comp' else None
        if m is None:
            return t
        s, alts, bv = m
        x = idx(s, bv)
        if any(v is not x for _, v in alts):
            rep.unknown('kept', 'result is %s' % show(t)[:120], w)
            return None
        for i, var in enumerate(r.P.adt[adt_path(r.P, 'rr::RR')]['v']):
            num_ = RRTYPES.get(var['n'])
            if num_ is None:
                continue
            env = {mk('discr', x): i, mk('rrty', x): num_[0]}
            try:
                got = any(all(z.has(evalt(k, env)) for k, z in d.items()) for d, _ in alts)
            except NoVal as e:
                un = [k for d, _ in alts for k in d if r.imprecise(k)]
                rep.judge('kept', None if un else None, 'filter of the result not understood', w)
                return s
            want = num_[0] not in (47, 50)
            if want:
                rep.judge('kept', got, 'verified %s records are taken out of the result' % num_[1] if not got else 'only denial records are taken out', w)
        t = s


def some(r, s, c, seen):
    """Whether the facts (or those with which the value was carried here) put something in list s."""
    q = F.cset(c, seqlen(s))
    if not q.empty() and q.lo() is not None and q.lo() >= 1 or s.op == 'push':
        return True
    if s is NIL:
        return None if guarded(r, c) else False
    inc = r.I.phis.get(s)
    if inc is None:
        return None
    if s in seen:
        return True
    seen.add(s)
    res = [None if guarded(r, c) and x is False else x for v, fs in inc if v is not s for c2 in fs for x in [some(r, v, c2, seen)]]
    return True if res and all(res) else False if False in res else None


def other_list(r, s):
    """Before some loop on every way to a return it is tested that one of several lists things were added to has entries."""
    def has(c):
        return any(t.op == 'len' and z.lo() is not None and z.lo() >= 1 and t.a[0] in r.I.phis and leaves(r, t.a[0]) <= {'push', 'nil'} for t, z in c.d.items())
    bbs = r.f['body']['bbs']
    made = {i for i, x in enumerate(bbs) for y in x['s'] if y[0] == '=' and y[2][0] == 'agg' and y[2][1][0] == 'adt'
            and r.P.types[y[2][1][1]].get('p', '').endswith('VerifiedRRStream')}
    for (cx, h), es in r.I.entries.items():
        if cx.a[0] != 'root' or not es or not all(st.facts and all(has(c) for c in st.facts) for k, st in es):
            continue
        seen, todo = set(), [0]
        while todo:
            x = todo.pop()
            if x not in seen and x != h:
                seen.add(x)
                todo += [y for y in engine.succs(bbs[x]['t']) if not bbs[y]['c']]
        if made and not made & seen:
            return True
    return False


def guarded(r, c):
    """The facts depend on a value carried around a loop other than a list, a name or a running extreme."""
    for t in c.d:
        if t.op in ('vsig', 'vdk', 'dkok', 'done', 'exists', 'len', 'eq', 'inzone'):
            continue
        for x in subterms(t):
            if x in r.I.phis:
                ops = leaves(r, x)
                if not ops <= {'push', 'ext', 'slice', 'arr', 'nil', 'comp'} and not (ops <= {'max', 'min', 'num'} and len(ops) > 1):
                    return True
    return False


def leaves(r, x):
    out, seen, todo = set(), set(), [x]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t in r.I.phis:
            todo += [v for v, _ in r.I.phis[t]]
        else:
            out.add('nil' if t is NIL else 'num' if is_num(t) else t.op)
    return out


def family(r, s):
    """The list and every loop value it was made from."""
    out, todo = set(), [s]
    while todo:
        t = todo.pop()
        if t in out:
            continue
        if t.op in ('push', 'ext', 'slice'):
            todo.append(t.a[0])
        elif t in r.I.phis:
            out.add(t)
            todo += [v for v, _ in r.I.phis[t]]
    return out


def about(r, c, L):
    return [t for t in c.d if t.op != 'len' and any(x is L for x in subterms(t))]


def held(c, L, item, val):
    """The facts say whether item is in list L: an existential over L comparing with item alone."""
    for t, q in c.d.items():
        if t.op == 'exists' and q.single() == val and t.a[0].op == 'over' and t.a[0].a[0] is L:
            alts = [dict(d) for d in t.a[1]]
            if len(alts) == 1 and len(alts[0]) == 1:
                (k, z), = alts[0].items()
                if k.op == 'eq' and z.single() == 1 and any(same_item(y, item) for y in k.a):
                    return True
    return False


def same_item(a, b):
    return a is b


def loose(c, L, item):
    """The only thing known of the list is a record in it that agrees with item in owner or type."""
    hit = False
    for t, q in c.d.items():
        if t.op == 'len' or not any(x is L for x in subterms(t)):
            continue
        if t.op == 'exists' and q.single() == 1 and t.a[0].op == 'over' and t.a[0].a[0] is L:
            ks = [k for d in t.a[1] for k, _ in d]
            if ks and all(any(x.op in ('rrname', 'rrty', 'discr') for x in subterms(k)) for k in ks):
                hit = True
                continue
        if t.op in ('eq', 'eq0') and q.single() == 1 and any(x.op in ('rrname', 'rrty', 'discr') for x in subterms(t)) and item not in t.a:
            hit = True
            continue
        if t.op in ('le0', 'discr'):
            continue
        return False
    return hit


def once(rep, r, lists, w):
    n = 0
    for L in lists:
        for v, fs in r.I.phis[L]:
            if v.op == 'ext' and v.a[0] in lists:
                rep.unknown('once', 'a whole sequence is appended', w)
            if v.op != 'push' or v.a[0] not in lists:
                continue
            for c in fs:
                n += 1
                if held(c, v.a[0], v.a[1], 0):
                    rep.good('once', 'a record is appended only where it is not in the list', w)
                elif about(r, c, v.a[0]) or any(t.op in ('exists', 'call', 'unk') and any(x is v.a[1] for x in subterms(t)) for t in c.d):
                    rep.unknown('once', 'appended under %s' % str(c)[:160], w)
                else:
                    rep.bad('once', 'a verified record is returned again for every signature over it', w)
    rep.floor('records appended', n, 1, hard=False)


# ---------------------------------------------------------------- loops
def sigloops(r):
    """Loops in which a signature drawn by them is verified."""
    out = []
    for e in r.evs:
        if e.kind != 'vsig':
            continue
        for x in subterms(e.args[0]):
            s = x.a[1] if x.op == 'elem' and len(x.a) > 1 else None
            if s is not None and s.op == 'site':
                ks = [k for k in r.I.loops if k[0] is s.a[0] and s.a[1] in r.I.loops[k][0]]
                if ks:
                    k = min(ks, key=lambda k: len(r.I.loops[k][0]))
                    if k not in out:
                        out.append(k)
    return out


def backs(r, L):
    """Values and facts with which the loop value L goes round unchanged or changed (not on entry)."""
    key = (L.a[0], L.a[1])
    return key in r.I.loops


def draws(x):
    s = x.a[1] if x.op == 'elem' and len(x.a) > 1 else None
    return s if s is not None and s.op == 'site' else None


def mine(r, k, t):
    """t speaks of an element drawn by loop k itself."""
    blocks = r.I.loops[k][0]
    for x in subterms(t):
        s = draws(x)
        if s is not None and s.a[0] is k[0] and s.a[1] in blocks:
            ks = [j for j in r.I.loops if j[0] is k[0] and s.a[1] in r.I.loops[j][0]]
            if min(ks, key=lambda j: len(r.I.loops[j][0])) == k:
                return True
    return False


def each(rep, r, lists, sigs, w):
    """Every turn of a loop that appends to the list appends or finds its own record."""
    n = 0
    for L in lists:
        if (L.a[0], L.a[1]) not in r.I.loops:
            continue
        k = (L.a[0], L.a[1])
        items = {v.a[1] for v, _ in r.I.phis[L] if v.op == 'push' and v.a[0] is L}
        if not items:
            continue
        for v, fs in r.I.phis[L]:
            if v is L or v.op == 'push' and v.a[0] is L:
                for c in fs:
                    for t in c.d:
                        if t.op == 'kept' and mine(r, k, t):
                            rep.bad('all', 'not every record of a verified set is looked at: %s' % show(t)[:100], w)
            if v is not L:
                continue
            for c in fs:
                n += 1
                if any(held(c, L, i, 1) for i in items):
                    rep.good('each', 'a record not appended is in the list', w)
                    continue
                ty = denial(r, c, items)
                if ty:
                    rep.good('each', 'only denial records are not appended', w)
                elif all(loose(c, L, i) for i in items):
                    rep.bad('each', 'a record of a verified set is not returned if the list holds another one of the same owner', w)
                elif about(r, c, L):
                    rep.unknown('each', 'not appended under %s' % str(c)[:160], w)
                else:
                    rep.bad('each', 'a record of a verified set is not returned', w)
        for s in early(r, L) or ():
            for c in s.facts:
                if any(mine(r, k, t) for t in c.d):
                    rep.bad('all', 'the records of a verified set are not gone through to the end', w)
    rep.floor('turns of the loop over a verified set', n, 1, hard=False)


def only(q, ok):
    return not q.empty() and isubset(q, iset(*ok))


def denial(r, c, items):
    for t, q in c.d.items():
        if t.op == 'fld' and str(t.a[1]) == 'ty' and only(q, {47, 50}):
            return True
        if t.op in ('discr', 'rrty') and t.a[0] in items:
            vs = r.P.adt[adt_path(r.P, 'rr::RR')]['v']
            ok = {i for i, v in enumerate(vs) if v['n'] in ('NSec', 'NSec3')} if t.op == 'discr' else {47, 50}
            if only(q, ok):
                return True
    return False


def turns(rep, r, k, lists, w):
    n = 0
    blocks = r.I.loops[k][0]
    heads = [p for p in r.I.phis if p.op == 'phi' and p.a[0] is k[0] and p.a[1] == k[1] and not p.a[4]]
    for L in heads:
        if L not in lists:
            continue
        for v, fs in r.I.phis[L]:
            for c in fs:
                hit = [t for t in vsigs(c) if mine(r, k, t.a[0])]
                if not hit:
                    continue
                n += 1
                t = hit[0]
                ty = F.cset(c, mk('fld', t.a[0], 'ty'))
                if v is L:
                    if ty.single() == 43:
                        deleg(rep, r, k, heads, c, fs, t, w)
                    elif about(r, c, L) or not no_phi_guard(r, c, ('sigok', 'vsig', 'vdk', 'len', 'dkok', 'eq', 'exists', 'inzone')):
                        rep.unknown('set', 'a verified set is passed over under %s' % str(c)[:200], w)
                    elif only(ty, {47, 50}):
                        rep.good('set', 'denial records', w)
                    else:
                        rep.bad('set', 'the records under a verified signature are not returned', w)
                elif v.op == 'phi' and v in lists and v.a[1] in blocks:
                    rep.good('set', 'the records under a verified signature went through the loop that appends them', w)
                else:
                    rep.unknown('set', 'list becomes %s' % show(v)[:120], w)
        for s in early(r, L) or ():
            for c in s.facts:
                if any(mine(r, k, t) for t in c.d):
                    rep.bad('sigs', 'the signatures are not gone through to the end', w)
    rep.floor('turns with a verified signature', n, 1, hard=False)


def deleg(rep, r, k, heads, c, fs, t, w):
    own = signame(t.a[0])
    forms = {own} | {x for x in (own.a[0] if own.op == 'fld' else None,) if x is not None}
    for p in heads:
        for v, f2 in r.I.phis[p]:
            if f2 is fs or f2 == fs:
                if v.op == 'push' and v.a[0] is p and v.a[1].op == 'agg' and any(x in forms for x in subterms(v.a[1])):
                    return rep.good('follow', 'a verified delegation is put on the list of zones to follow', w)
    for a, q in c.d.items():
        if a.op == 'exists' and q.single() == 1 and any(x in forms for x in subterms(a)):
            return rep.good('follow', 'its zone was seen before', w)
        if a.op == 'eq' and q.single() == 1 and any(y in forms for y in a.a):
            o = next((y for y in a.a if y not in forms), None)
            while o is not None and o.op == 'fld':
                o = o.a[0]
            if o is not None and o.op == 'idx' and any(v.op == 'push' and v.a[1] in forms for v, _ in r.I.phis.get(o.a[0], ())):
                return rep.good('follow', 'its zone was seen before', w)
            return rep.unknown('follow', 'its owner is %s' % show(a)[:100], w)
    if any(v.op not in ('phi', 'push') and any(x in forms for x in subterms(v)) for p in heads for v, f2 in r.I.phis[p] if f2 == fs):
        return rep.unknown('follow', 'lists of zones not understood', w)
    rep.bad('follow', 'a verified delegation is not followed', w)


def entered(rep, r, k, w):
    """Which of the supplied signatures the loop goes through, and its turns without a verification."""
    states = list(r.I.loops[k][1])
    for kind, ss, _ in ways_out(r, k):
        if kind != 'done':
            states += ss
    cs = [c for s in states for c in s.facts if any(mine(r, k, t) for t in c.d)]
    if not cs:
        return rep.unknown('enter', 'no turn of the signature loop', w)
    xs = {x for c in cs for t in c.d for x in subterms(t) if x.op == 'idx' and x.a[0] is r.p(0) and mine(r, k, x)}
    if len(xs) != 1:
        return rep.unknown('enter', 'signatures drawn: %s' % [show(x)[:60] for x in xs], w)
    x = next(iter(xs))
    src = next((y.a[0] for y in subterms(x.a[1]) if y.op == 'elem'), None)
    if src is not None and src.op == 'range':
        a, b = src.a[0], src.a[1]
        if is_num(a) and a is not num(0):
            rep.bad('enter:range', 'the first supplied records are not looked at', w)
        elif a is num(0) and b is seqlen(r.p(0)):
            rep.good('enter:range', 'every supplied record is looked at', w)
        else:
            rep.unknown('enter:range', show(src)[:100], w)
    sg = mk('fld', x, 'RRSig.0')
    common = {t: F.cset(cs[0], t) for t in cs[0].d if any(y is x for y in subterms(t))}
    for c in cs[1:]:
        common = {t: iunion(q, F.cset(c, t)) for t, q in common.items() if t in c.d}
    for c in cs:
        for t, q in c.d.items():
            if t.op == 'kept' and mine(r, k, t):
                rep.bad('enter', 'not every supplied signature is looked at: %s' % show(t)[:100], w)
    for t, q in common.items():
        if isubset(rng(t), q):
            continue
        if t is mk('discr', x) or t.op == 'le0':
            continue
        if t.op == 'eq' and q.single() == 1 and any(y is mk('fld', mk('fld', sg, 'key_name'), '0') for y in t.a):
            continue
        if t is mk('fld', sg, 'ty'):
            bad = [n for n in RRTYPES.values() if n[0] not in (48, 46) and not q.has(n[0])]
            rep.judge('enter:type', not bad, 'signatures over %s records are not looked at' % bad[0][1] if bad else 'only signatures over DNSKEYs are left out', w)
            continue
        if t.op == 'inzone':
            rep.unknown('enter', 'signatures restricted by %s' % show(t)[:100], w)
            continue
        rep.judge('enter', None if r.imprecise(t) is not None or any(y in r.I.phis for y in subterms(t)) else False, 'only signatures with %s in %s are looked at' % (show(t)[:100], q), w)
    rep.good('enter', 'every signature of the zone enters the loop', w)
    for s in r.I.loops[k][1]:
        for c in s.facts:
            if not any(mine(r, k, t) for t in c.d):
                continue
            if any(t.op == 'vsig' and mine(r, k, t.a[0]) for t in c.d):
                continue
            kn = mk('fld', mk('fld', sg, 'key_name'), '0')
            why = any(t.op == 'eq' and q.single() == 0 and any(y is kn for y in t.a) for t, q in c.d.items()) \
                or F.cset(c, mk('fld', sg, 'ty')).single() in (48, 46) or not F.cset(c, mk('discr', x)).has(rrsig_variant(r))
            if why:
                rep.good('skip', 'passed over: of another signer or over DNSKEYs', w)
            elif any(y in r.I.phis for t in c.d if mine(r, k, t) and t.op not in ('eq',) for y in subterms(t)):
                rep.unknown('skip', 'passed over under %s' % str(c)[:160], w)
            else:
                rep.bad('skip', 'a signature of the zone is passed over unverified', w)


def rrsig_variant(r):
    return next(i for i, v in enumerate(r.P.adt[adt_path(r.P, 'rr::RR')]['v']) if v['n'] == 'RRSig')


def zones(rep, r, sigs, w):
    """The loop around the signature loop ends only when nothing is left on the list of zones to follow."""
    n = 0
    for k in r.I.loops:
        blocks = r.I.loops[k][0]
        ins = [s for s in sigs if s[0] is k[0] and s[1] in blocks and s[1] != k[1]]
        if not ins:
            continue
        # the lists of zones: loop values some turn of the signature loop appends the signature's owner to
        pend = set()
        for s in ins:
            for p in r.I.phis:
                if p.op == 'phi' and p.a[0] is k[0] and p.a[1] == s[1]:
                    for v, fs in r.I.phis[p]:
                        if v.op == 'push' and v.a[0] is p and v.a[1].op == 'agg':
                            pend.add(p.a[3])
        if not pend:
            return rep.unknown('zones', 'list of zones to follow not found', w)
        fam = {p for p in r.I.phis if p.op == 'phi' and p.a[0] is k[0] and p.a[3] in pend and not p.a[4]}
        for kind, ss, rets in ways_out(r, k):
            if kind == 'err':
                continue
            for s in ss:
                for c in s.facts:
                    n += 1
                    if any(t.op == 'len' and q.single() == 0 and base(t.a[0]) in fam for t, q in c.d.items()):
                        rep.good('zones', 'the walk ends only when no zone is left', w)
                    elif any(t.op != 'len' and t.op != 'eq' and t.op not in ('vdk', 'dkok', 'vsig') and any(x in fam for x in subterms(t)) for t in c.d):
                        rep.unknown('zones', 'the walk ends under %s' % str(c)[:200], w)
                    else:
                        rep.bad('zones', 'the walk over the zones ends though zones may be left', w)
    rep.floor('ends of the walk', n, 1, hard=False)


def base(t):
    while t.op in ('slice', 'sorted', 'rev'):
        t = t.a[0]
    return t
